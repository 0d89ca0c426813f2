"""Models and automaton for the packaging tool: what paths are (text.py), which steps failed, what is encrypted, archived, written and removed."""
from engine import Monitor, T, add, sub, is_int, Infeasible
from models import fresh, ext_ptr, rd_str
from text import X, texts, set_text, UNK, TextHooks, formatted, is_user
from build import AnalysisError
P = {}
def model(*names):
    def deco(f):
        for n in names: P[n] = f
        return f
    return deco
MANDATORY = ("librarypath", "version", "language")
MODE = {"only": None, "e": None}
def remembered(k): return k in MANDATORY or k == "encrypt"
def failed(st, why):
    """a step of packaging failed. C20 holds whatever fails, so there it need not be remembered; C17 follows only failures of the encryption
    (that a failure of any other step ends packaging is C18)"""
    g = st.ghost; m = MODE["e"].monitor
    if MODE["only"] in ("C19", "C20"): return
    if MODE["only"] == "C17" and not m.encrypting(MODE["e"]): g["dead"] = 1; return
    g["failed"] = "a step failed"
    for k in [k for k in g if k in ("pend", "pdir", "cur") or k[:3] == "pk:" or k in ("encroot", "libdir") and MODE["only"] == "C18"]: del g[k]
def errno(e, st, v):
    p = st.gval.get("errno")
    if p is not None: e.store(st, p, 4, v)
def strobj(e, st, name, text, root=None):
    o = e.new_obj(st, "ext", None, "?", (name,)); p = T(o); set_text(e, st, p, (text,))
    if root: st.gval[root] = p
    return p
@model("__errno_location")
def _(e, st, a, i): return [(st, st.gval["errno"])]
# ------------------------------------------------------------------ command line
def key_of(e, st, p):
    t = texts(e, st, p)
    if len(t) != 1 or "<" in t[0]: raise AnalysisError("an argument is looked up by a name that is not a literal (%s)" % (t,))
    return t[0]
def decide(e, st, k):
    """-> states in which it is known whether argument k was given"""
    g = st.ghost
    if "k:" + k in g: return [st]
    if not remembered(k):        # asked for once; nothing depends on it later
        n = st.fork(); strobj(e, st, "arg:" + k, "<arg:%s>" % k, "arg:" + k); st.ghost["k:" + k] = 1; n.ghost["k:" + k] = 0
        return [st, n]
    out = []
    if MODE["only"] != "C17" or k != "encrypt": n = st.fork(); n.ghost["k:" + k] = 0; out.append(n)
    for t in ((("true", "tRUE") if MODE["only"] == "C17" else ("true", "<arg:encrypt>")) if k == "encrypt" else ("<arg:%s>" % k,)):
        s = st.fork(); s.ghost["k:" + k] = 1
        if k == "encrypt" and t != "<arg:encrypt>":
            if MODE["only"] == "C17": s.ghost["enc"] = 1
            o = e.new_obj(s, "heap", 5, "?", ("arg:encrypt",)); m = e.get_obj(s, o).same()
            for j, ch in enumerate(t): m.cells[j] = (1, ord(ch))
            m.cells[4] = (1, 0); s.objs[o] = m; s.gval["arg:encrypt"] = T(o)
        else: strobj(e, s, "arg:" + k, t, "arg:" + k)
        out.append(s)
    return out
@model("getValueOf")
def _(e, st, a, i):
    k = key_of(e, st, a[0])
    return [(s, got(s, k)) for s in decide(e, st, k)]
def got(s, k):
    v = s.gval["arg:" + k] if s.ghost["k:" + k] else 0
    if not remembered(k): s.gval.pop("arg:" + k, None); s.ghost.pop("k:" + k)
    return v
@model("containsKey")
def _(e, st, a, i):
    k = key_of(e, st, a[0])
    out = []
    for s in decide(e, st, k):
        v = s.ghost["k:" + k]
        if not v and not remembered(k): s.ghost.pop("k:" + k)     # remembered until the value is fetched
        out.append((s, v))
    return out
@model("validateArguments")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "the command line is not valid"); failed(n, "the command line is not valid")
    return [(st, 1), (n, 0)]
@model("printArgumentHelp")
def _(e, st, a, i): st.ghost["help"] = 1; return [(st, None)]
# ------------------------------------------------------------------ file system
def handle(e, st, name, tags):
    o = e.new_obj(st, "ext", None, "?", (name,), frozenset(tags)); return T(o)
@model("fopen", "fopen64")
def _(e, st, a, i):
    t = texts(e, st, a[0]); mode = e.cstr(st, a[1])
    if mode is None: raise AnalysisError("a file is opened in an unknown mode")
    w = any(c in mode for c in "wa+")
    e.monitor.on_open(e, st, t, w, i)
    out = []
    s = st.fork(); s.ghost.pop("lastopen", None)
    h = handle(e, s, "FILE", {"f|" + ("w" if w else "r")} | {"t|" + x for x in t}); out.append((s, h))
    if not w: e.monitor.on_exists(e, s, t, True)
    n = st.fork(); errno(e, n, 13); e.note(n, i, "the file cannot be opened"); failed(n, "%s cannot be opened" % "/".join(t)); out.append((n, 0))
    if not w and not all(x.endswith("<ent>") or x.endswith("<mo>") for x in t):
        m = st.fork(); errno(e, m, 2); e.note(m, i, "the file does not exist")
        if any("<arg" in x for x in t): failed(m, "%s does not exist" % "/".join(t))
        e.monitor.on_exists(e, m, t, False); out.append((m, 0))
    return out
def htag(e, st, h, pre):
    b, _ = e.base_of(st, h)
    return sorted(x[2:] for x in e.get_obj(st, b).tags if x[:2] == pre) if b is not None else []
def writable(e, st, h): return "w" in htag(e, st, h, "f|")
@model("fclose")
def _(e, st, a, i):
    p = e.norm(st, a[0])
    if is_int(p): return []          # the program crashes
    if not writable(e, st, p): return [(st, 0)]
    n = st.fork(); errno(e, n, 28); e.note(n, i, "closing the file fails"); failed(n, "%s cannot be written out" % "/".join(htag(e, st, p, "t|")))
    if st.ghost.get("dirty"):
        e.monitor.violation("C18", e, st, "write-errors-ignored", i, "%s is written without its write errors being looked at" % "/".join(htag(e, st, p, "t|"))) if not st.ghost.get("failed") else None
    st.ghost.pop("dirty", None); n.ghost.pop("dirty", None)
    return [(st, 0), (n, -1)]
@model("fread")
def _(e, st, a, i):
    b, off = e.base_of(st, a[0])
    if b is not None: e.havoc_range(st, b, off, None)
    n = st.fork(); e.note(n, i, "reading fails"); failed(n, "reading %s fails" % "/".join(htag(e, st, a[3], "t|")))
    v = fresh(e, ("short",), lo=0, hi=2**31 - 1); out = [(st, a[2])]
    try: e.assume_ge0(n, sub(sub(a[2], v), 1)); out.append((n, v))
    except Infeasible: pass
    return out
@model("fwrite")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "writing fails"); failed(n, "writing %s fails" % "/".join(htag(e, st, a[3], "t|")))
    v = fresh(e, ("short",), lo=0, hi=2**31 - 1); out = [(st, a[2])]
    try: e.assume_ge0(n, sub(sub(a[2], v), 1)); out.append((n, v))
    except Infeasible: pass
    return out
@model("fprintf", "fputs", "fputc", "putc", "vfprintf")
def _(e, st, a, i):
    nm = i["callee"][1]; h = a[0] if nm in ("fprintf", "vfprintf") else a[1]
    h = e.norm(st, h)
    if is_int(h): return []
    if not writable(e, st, h): return [(st, fresh(e, ("printed",), lo=0))]       # stderr
    st.ghost["dirty"] = 1
    e.monitor.on_print(e, st, h, nm, a, i)
    return [(st, fresh(e, ("printed",), lo=-1, hi=2**31 - 1))]
@model("printf", "puts", "putchar", "fflush", "perror")
def _(e, st, a, i): return [(st, fresh(e, ("printed",), lo=0))]
@model("ferror")
def _(e, st, a, i):
    st.ghost.pop("dirty", None); n = st.fork(); e.note(n, i, "a write error occurred"); failed(n, "writing %s failed" % "/".join(htag(e, st, a[0], "t|")))
    v = fresh(e, ("ferror",), lo=1, hi=255); return [(st, 0), (n, v)]
@model("getc", "fgetc")
def _(e, st, a, i): return [(st, fresh(e, ("getc",), lo=-1, hi=255))]
@model("stat", "lstat", "stat64")
def _(e, st, a, i):
    t = texts(e, st, a[0])
    if not t: return []
    b, off = e.base_of(st, a[1])
    n = st.fork(); errno(e, n, 2); e.note(n, i, "stat fails")
    if all(x.startswith("<arg") or x.startswith("<last") for x in t): failed(n, "%s does not exist" % "/".join(t))
    if b is not None: e.havoc_range(st, b, off, None)
    m = None
    if b is not None:
        # a folder or a file
        m = st.fork(); e.store(st, add(a[1], 24), 4, 0o40755); e.store(m, add(a[1], 24), 4, 0o100644)
        for s in (st, m): e.store(s, add(a[1], 48), 8, fresh(e, ("st_size",), lo=0, hi=2**31 - 2))
        if all(x.startswith("<arg:librarypath") for x in t): failed(m, "%s is not a folder" % "/".join(t))
        return [(st, 0), (m, 0), (n, -1)]
    return [(st, 0), (n, -1)]
@model("mkdir")
def _(e, st, a, i):
    t = texts(e, st, a[0]); e.monitor.on_write(e, st, t, "created", i)
    n = st.fork(); errno(e, n, 13); e.note(n, i, "mkdir fails"); failed(n, "folder %s cannot be created" % "/".join(t))
    x = st.fork(); errno(e, x, 17); e.note(x, i, "the folder exists already")
    if any(y.endswith("<last:librarypath>") for y in t) and not st.ghost.get("libdir"):
        # the name may be "", "." or "..": only a new folder shows that it is none of these
        failed(x, "the folder for the library exists already"); 
        if MODE["only"] == "C20": st.ghost["libdir"] = 1
    return [(st, 0), (n, -1), (x, -1)]
@model("mkdtemp")
def _(e, st, a, i):
    t = texts(e, st, a[0]); n = st.fork(); e.note(n, i, "mkdtemp fails"); failed(n, "no temporary folder can be created")
    if t and all("<" not in x and x.endswith("XXXXXX") for x in t): set_text(e, st, a[0], ("<STAGE>",))
    else: set_text(e, st, a[0], (UNK,))
    return [(st, a[0]), (n, 0)]
@model("remove", "unlink", "rmdir")
def _(e, st, a, i):
    t = texts(e, st, a[0]); e.monitor.on_remove(e, st, t, i["callee"][1], i); n = st.fork(); errno(e, n, 13)
    return [(st, 0), (n, -1)]
@model("chmod")
def _(e, st, a, i):
    t = texts(e, st, a[0]); e.monitor.on_write(e, st, t, "changed", i); n = st.fork(); errno(e, n, 1); e.note(n, i, "chmod fails"); failed(n, "the permissions of %s cannot be set" % "/".join(t))
    return [(st, 0), (n, -1)]
@model("rename", "symlink", "link", "truncate", "open", "creat", "system", "popen", "execl", "execv", "execvp", "unlinkat", "ftruncate", "chown", "mkdirat", "renameat", "freopen", "open64")
def _(e, st, a, i):
    nm = i["callee"][1]
    t = [x for k in (0, 1) if k < len(a) and i.get("aty", [["p"]] * 9)[k][0] == "p" for x in texts(e, st, a[k])]
    if nm in ("system", "popen", "execl", "execv", "execvp", "symlink", "link"): e.monitor.violation("C20", e, st, "other-effect", i, "%s is called (%s)" % (nm, ", ".join(t)))
    else:
        for x in t: e.monitor.on_write(e, st, (x,), "changed by " + nm, i)
    n = st.fork(); failed(n, nm + " fails"); return [(st, 0 if nm not in ("popen", "freopen") else handle(e, st, "FILE", {"f|w"})), (n, -1 if nm not in ("popen", "freopen") else 0)]
@model("opendir")
def _(e, st, a, i):
    t = texts(e, st, a[0]); n = st.fork(); e.note(n, i, "the folder cannot be read")
    if any(f in ("fopen", "fopen64", "mkdir", "mlle_cr_encrypt") or f.startswith("zip_") for f in e.closure(e.callstack[-1])[0]):      # not a mere search, and removing is best effort
        failed(n, "folder %s cannot be read" % "/".join(t))
    e.monitor.on_opendir(e, st, t, i)
    h = handle(e, st, "DIR", {"t|" + x for x in t}); return [(st, h), (n, 0)]
@model("closedir")
def _(e, st, a, i): return [(st, 0)]
@model("readdir", "readdir64")
def _(e, st, a, i):
    p = e.norm(st, a[0])
    if is_int(p): return []
    e.monitor.on_next(e, st, i, htag(e, st, p, "t|")); out = []
    errno(e, st, fresh(e, ("errno",), lo=0, hi=200))
    s = st.fork(); s.ghost.pop("cur", None); e.note(s, i, "no more entries"); e.monitor.on_entry(e, s, None, None, i); out.append((s, 0))
    for name, ty in ((".", 4), ("..", 4), ("<ent>", 4), ("<ent>", 8), ("<ent>", 10), ("<mo>", 4), ("<mo>", 8), ("<mo>", 10)):
        s = st.fork(); o = e.new_obj(s, "ext", None, "?", ("dirent",), frozenset({"dirent", "user", "t|" + name})); d = T(o)
        n = e.get_obj(s, o).same(); n.cells[18] = (1, ty if ty != 10 else 10); s.objs[o] = n; s.ghost["cur"] = name + str(ty)
        e.note(s, i, "entry %s (%s)" % (name, {4: "folder", 8: "file", 10: "neither"}[ty])); e.monitor.on_entry(e, s, name, ty, i); out.append((s, d))
    return out
@model("readlink")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "readlink fails"); failed(n, "the tool's own folder cannot be found"); set_text(e, st, a[1], ("<exe>",))
    return [(st, fresh(e, ("link",), lo=0, hi=4096)), (n, -1)]
@model("getcwd")
def _(e, st, a, i):
    n = st.fork()
    if is_int(e.norm(st, a[0])): p = strobj(e, st, "cwd", "<CWD>")
    else: p = a[0]; set_text(e, st, p, ("<CWD>",))
    return [(st, p), (n, 0)]
@model("getenv")
def _(e, st, a, i): n = st.fork(); return [(st, strobj(e, st, "env", "<env>")), (n, 0)]
@model("getpid")
def _(e, st, a, i): return [(st, fresh(e, ("pid",), lo=1, hi=2**22))]
@model("malloc", "calloc", "realloc")
def _(e, st, a, i):
    o = e.new_obj(st, "heap", fresh(e, ("size",), lo=0), "?", (i["callee"][1], e.site(i))); return [(st, T(o))]
@model("free")
def _(e, st, a, i): return [(st, None)]
# ------------------------------------------------------------------ encryption and archive
@model("mlle_cr_create")
def _(e, st, a, i): n = st.fork(); failed(n, "no encryption context"); return [(st, ext_ptr(e, "cr_context")), (n, 0)]
@model("mlle_cr_free")
def _(e, st, a, i): return [(st, None)]
@model("mlle_cr_encrypt")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "encryption fails"); failed(n, "encrypting a file fails")
    if is_int(e.norm(st, a[2])) or is_int(e.norm(st, a[3])): return []
    e.monitor.on_encrypt(e, st, htag(e, st, a[2], "t|"), htag(e, st, a[3], "t|"), i)
    return [(st, 1), (n, 0)]
@model("zip_open", "zip_openwitherror")
def _(e, st, a, i):
    t = texts(e, st, a[0]); n = st.fork(); e.note(n, i, "the archive cannot be opened"); failed(n, "the archive cannot be opened")
    e.monitor.on_archive(e, st, t, i); st.ghost["zip"] = "open"
    return [(st, handle(e, st, "zip", {"t|" + x for x in t})), (n, 0)]
@model("zip_entry_open", "zip_entry_close", "zip_entry_fwrite", "zip_entry_write", "zip_entry_noallocread")
def _(e, st, a, i):
    nm = i["callee"][1]
    if is_int(e.norm(st, a[0])): return []
    if nm == "zip_entry_fwrite": e.monitor.on_archived(e, st, texts(e, st, a[1]), i)
    n = st.fork(); e.note(n, i, nm + " fails"); failed(n, nm + " fails"); v = fresh(e, ("ziperr",), lo=-2**31, hi=-1)
    return [(st, 0), (n, v)]
@model("zip_close")
def _(e, st, a, i):
    if not is_int(e.norm(st, a[0])): st.ghost["zip"] = "closed"; e.monitor.on_archive_done(e, st, i)
    return [(st, None)]
class Pkg(TextHooks, Monitor):
    """every rule of C17, C18, C19 and C20; `only` selects what is reported"""
    only = None; root = "doWork"
    def __init__(self, only): self.only = only; self.events = {}; self.seen = set(); self.outcomes = {}; self.changed = False; self.lists = {}
    def ev(self, what, i=None, e=None):
        k = (what, e.site(i) if e and i else None)
        if k not in self.seen: self.seen.add(k); self.events[what] = self.events.get(what, 0) + 1
    def violation(self, prop, e, st, rule, i, msg):
        if prop == self.only: e.report(st, rule, i, msg)
    # -------- recursion: least fixpoint over (function, what its arguments are)
    def key(self, e, st, name, args):
        k = []
        for a in args:
            a = e.norm(st, a)
            if is_int(a): k.append(a); continue
            t = texts(e, st, a)
            k.append("*" if any(UNK in x for x in t) else tuple(sorted({x.replace("<mo>", "<ent>") for x in t})))
        return (name,) + tuple(k)
    def snapshot(self, e, st):
        out = []
        for s, g in sorted(e.sym2glob.items(), key=lambda x: x[1]):
            if s not in st.objs: continue
            o = st.objs[s]
            if o.kind != "global": continue
            for off, (sz, v) in sorted(o.cells.items(), key=str):
                if sz != 8 or not is_int(off): continue
                v = e.norm(st, v)
                out.append((g, off, v if is_int(v) else texts(e, st, v)))
        return tuple(out)
    def pre_call(self, e, st, name, args, i):
        f = e.fns.get(name)
        if f is None or f.decl or name in e.models or name not in e.callstack: return None
        cycle = e.callstack[len(e.callstack) - 1 - e.callstack[::-1].index(name):]
        if not self.listing(e, name) and any(self.listing(e, f) for f in cycle): return None        # cut where a folder is listed
        k = self.key(e, st, name, args)
        if k not in getattr(self, "stack", []):
            if e.callstack.count(name) > 5: raise AnalysisError("recursive calls of %s: the arguments differ at every level: %s" % (name, self.stack[-3:]))
            return None
        self.ev("recursive calls", i, e); out = []
        if any(x.endswith("<ent>") or x.endswith("<mo>") for a in args for x in (texts(e, st, a) or ())): st.ghost.pop("pdir", None)
        for rv, gh, snap in sorted(self.outcomes.get(k, ()), key=str):
            s = st.fork()
            if gh: failed(s, "")
            cur = dict(((g, off), v) for g, off, v in self.snapshot(e, s))
            for g, off, v in snap:
                if cur.get((g, off)) != v: e.store(s, add(T(e.gsym[g]), off), 8, v if is_int(v) else strobj2(e, s, v))
            e.note(s, i, "the recursive call returns %s" % (rv,))
            out.append((s, rv if rv is not None else fresh(e, ("rec",), lo=-2**31, hi=2**31 - 1)))
        return out
    def enter(self, e, st, name, args):
        if not hasattr(self, "stack"): self.stack = []
        del self.stack[len(e.callstack) - 1:]
        self.stack.append(self.key(e, st, name, args))
        if not hasattr(self, "saved"): self.saved = []
        del self.saved[len(e.callstack) - 1:]; self.saved += [{}] * (len(e.callstack) - 1 - len(self.saved))
        g = st.ghost; self.saved.append({k: v for k, v in g.items() if k[:3] == "pk:"} if self.listing(e, name) else {})
        if self.listing(e, name):
            for k in self.saved[-1]: del g[k]
        if g.get("failed"): self.saved[-1]["failed"] = g["failed"]
    def listing(self, e, fn):
        if fn not in self.lists: self.lists[fn] = any(i["op"] == "call" and i["callee"][0] == "g" and i["callee"][1].startswith("readdir") for blk in e.fns[fn].blocks for i in blk)
        return self.lists[fn]
    def leave(self, e, st, name, args, rv):
        if len(self.stack) >= len(e.callstack): k = self.stack[len(e.callstack) - 1]
        else: k = None
        if k is not None:
            r = e.norm(st, rv) if rv is not None else None
            o = (r if is_int(r) else None, tuple(sorted((a, b) for a, b in st.ghost.items() if a == "failed" and not self.saved[len(e.callstack) - 1].get("failed"))), self.snapshot(e, st))
            s = self.outcomes.setdefault(k, set())
            if o not in s: s.add(o); self.changed = True
        if self.lists.get(name):
            st.ghost.pop("cur", None)
            for x in [x for x in st.ghost if x[:3] == "pk:"]: del st.ghost[x]
            if not st.ghost.get("failed"): st.ghost.update(self.saved[len(e.callstack) - 1])
        if name == self.root and len(e.callstack) == 1: self.on_end(e, st, rv)
    # -------- C18
    def on_end(self, e, st, rv):
        g = st.ghost
        ok = e.compare_const(st, rv, 0)
        if g.get("help") and not g.get("failed"): return
        if ok is not True:
            self.ev("outcomes: failure")
            if g.get("badzip"): self.violation("C18", e, st, "incomplete-archive", None, "packaging fails, but the archive is completed and left behind")
        if ok is False: return
        self.ev("outcomes: success")
        if self.root == "main" and not any(k[:2] == "k:" for k in g) and not g.get("zip") and not g.get("failed"): self.violation("C18", e, st, "no-archive", None, "the program exits with success without having done anything"); return
        if g.get("failed"): self.violation("C18", e, st, "failure-not-reported", None, "packaging exits with success although " + g["failed"])
        elif g.get("zip") != "closed": self.violation("C18", e, st, "no-archive", None, "packaging exits with success without an archive having been completed")
        for k in MANDATORY if not g.get("failed") else ():
            if g.get("k:" + k) != 1: self.violation("C18", e, st, "mandatory-argument", None, "packaging exits with success without the mandatory argument " + k)
        if g.get("enc") and g.get("pend"): self.violation("C17", e, st, "not-encrypted", None, "packaging exits with success although a Modelica file was not encrypted")
    def on_archive(self, e, st, t, i):
        self.ev("archives", i, e); g = st.ghost
        if g.get("failed"): self.violation("C18", e, st, "archive-after-failure", i, "an archive is produced although " + g["failed"])
        for x in t:
            if x not in ("<last:librarypath>.mol", "<CWD>/<last:librarypath>.mol"): self.violation("C20", e, st, "wrong-archive", i, "the archive is written to %s" % x)
        if g.get("enc") and not g.get("encroot") and not g.get("failed"): self.violation("C17", e, st, "not-encrypted", i, "encryption was requested, but the archive is produced before the library was encrypted")
        if g.get("enc") and g.get("failed"): self.violation("C17", e, st, "not-encrypted", i, "the archive is produced although encrypting a file or folder of the library failed")
        if g.get("enc") and g.get("pend") and not g.get("failed"): self.violation("C17", e, st, "not-encrypted", i, "the archive is produced although a Modelica file was not encrypted")
    def on_archive_done(self, e, st, i):
        if st.ghost.get("failed"): st.ghost["badzip"] = 1
    # -------- C20
    def inside(self, x):
        if x == "<STAGE>": return True
        if not x.startswith("<STAGE>/"): return False
        c = x[8:].split("/")
        return all(y not in ("..", "") and "<?>" not in y and "<arg" not in y and "<cut" not in y for y in c)
    def on_write(self, e, st, t, how, i):
        self.ev("files and folders written", i, e)
        for x in t or (UNK,):
            if not self.inside(x): self.violation("C20", e, st, "writes-outside", i, "%s is %s" % (x, how))
            elif "<last" in x and not st.ghost.get("libdir") and how != "created": self.violation("C20", e, st, "writes-outside", i, "%s is %s before its folder was created" % (x, how))
    def on_open(self, e, st, t, w, i):
        self.ev("files opened for writing" if w else "files opened for reading", i, e)
        if w: self.on_write(e, st, t, "overwritten", i)
    def on_remove(self, e, st, t, what, i):
        self.ev("removals", i, e)
        for x in t or (UNK,):
            if x in ("<CWD>/<last:librarypath>.mol", "<last:librarypath>.mol"):
                if st.ghost.get("zip") == "closed": st.ghost.pop("badzip", None); st.ghost["zip"] = "removed"
                continue
            if not self.inside(x): self.violation("C20", e, st, "removes-outside", i, "%s is removed" % x)
    # -------- C17
    def encrypting(self, e):
        for f in e.callstack:
            c = e.closure(f)[0]
            if "mlle_cr_encrypt" in c and not any(n.startswith("zip_") for n in c): return True
        return False
    def on_backedge(self, e, st, fn, b):
        if self.listing(e, fn): st.ghost.pop("cur", None)
    def on_next(self, e, st, i, folder):
        g = st.ghost
        for k in [k for k in g if k[:3] == "pk:" and k[3:] not in [x.replace("<mo>", "<ent>") for x in folder]]: del g[k]
        if not g.get("enc") or g.get("failed") or not self.encrypting(e): return
        self.ev("entries of the library followed", i, e)
        if g.pop("impossible", None): g.pop("pend", None); g.pop("pdir", None)
        if g.get("pend"): self.violation("C17", e, st, "not-encrypted", i, "a Modelica file (%s) is passed over without being encrypted" % g["pend"])
        if g.get("pdir"): self.violation("C17", e, st, "not-encrypted", i, "a folder is passed over without its files being encrypted")
        g.pop("pend", None); g.pop("pdir", None)
    def on_entry(self, e, st, name, ty, i):
        g = st.ghost
        if not g.get("enc") or g.get("failed") or not self.encrypting(e) or name in (None, ".", ".."): return
        if ty == 4: g["pdir"] = 1
        elif ty == 8 and name == "<mo>": g["pend"] = "<mo>"
    def on_opendir(self, e, st, t, i):
        g = st.ghost
        if self.encrypting(e):
            if any(x in ("<STAGE>", "<STAGE>/<last:librarypath>") for x in t) and g.get("enc"): g["encroot"] = 1
            if all(x.endswith("<ent>") or x.endswith("<mo>") for x in t): g.pop("pdir", None)
    def on_exists(self, e, st, t, yes):
        """a name that is not from a folder listing was looked for"""
        if st.ghost.get("enc") and not st.ghost.get("failed") and self.encrypting(e) and len(t) == 1 and t[0].lower().endswith("/package.mo"): st.ghost["pk:" + t[0][:-11]] = "there" if yes else "absent"
    def on_cmp(self, e, st, a, b, n, equal, i):
        g = st.ghost
        for x, y in ((a, b), (b, a)):
            if equal and e.cstr(st, y) == "package.mo" and "dirent" in e.tags_of(st, x) and g.get("enc") and self.encrypting(e):
                # the entry is package.mo, which was looked for by name before
                v = {v for k, v in g.items() if k[:3] == "pk:"}
                if v == {"done"}: g.pop("pend", None); g.pop("pdir", None)
                elif (g.get("pend") or g.get("pdir")) and v == {"absent"}: g["impossible"] = 1
    def on_encrypt(self, e, st, src, dst, i):
        self.ev("files encrypted", i, e); g = st.ghost
        if len(src) != 1 or len(dst) != 1 or dst[0] != src[0] + "c": self.violation("C17", e, st, "wrong-encrypted-name", i, "%s is encrypted into %s" % (src, dst)); return
        s = src[0]
        if s.endswith("/package.mo") and not g.get("failed"): g["pk:" + s[:-11]] = "done"
        if s.endswith("<mo>") or s.endswith("/package.mo") and g.get("pend"): g.pop("pend", None)
    def on_archived(self, e, st, t, i):
        self.ev("files archived", i, e)
        if not st.ghost.get("enc"): return
        self.ev("files archived with encryption", i, e)
        for x in t or (UNK,):
            if x.endswith("<mo>") or x.lower().endswith(".mo") or x == UNK: self.violation("C17", e, st, "cleartext-archived", i, "a Modelica source file (%s) is put into the archive of an encrypted library" % x)
    # -------- C19
    userloads = None
    def access(self, e, st, p, n, write, i):
        TextHooks.access(self, e, st, p, n, write, i)
        if not write and n == 1:
            b, off = e.base_of(st, p)
            if b is not None and b in st.objs and "user" in st.objs[b].tags: self.userloads = (self.userloads or set()) | {(e.callstack[-1], i["id"])}
    def user_char(self, e, i):
        """is one of the call's operands a character loaded from a value given by the user?"""
        fn = e.callstack[-1]; d = {x["id"]: x for blk in e.fns[fn].blocks for x in blk if "id" in x}
        for v in i["ops"]:
            while v[0] == "i" and v[1] in d and d[v[1]]["op"] in ("zext", "sext", "trunc", "freeze"): v = d[v[1]]["ops"][0]
            if v[0] == "i" and (fn, v[1]) in (self.userloads or ()): return True
        return False
    SPECIAL = '<>&"'
    def on_print(self, e, st, h, nm, a, i):
        if not any("manifest" in x for x in htag(e, st, h, "t|")): return
        self.ev("manifest writes", i, e)
        vals = []
        if nm == "fprintf":
            fmt = e.cstr(st, a[1])
            if fmt is None: self.violation("C19", e, st, "unescaped", i, "text that is not a literal is used as a format for the manifest"); return
            from models import format_parts
            if "%c" in fmt: vals += [(v, "c") for v in a[2:] if is_int(v)]       # (a known character becomes part of the text below)
            for p in format_parts(e, st, fmt, a[2:], i):
                if not isinstance(p, str): vals.append((p[1], p[2]))
        elif nm == "fputs": vals.append((a[0], "s"))
        else: vals.append((a[0], "c"))
        for v, c in vals:
            if c == "s":
                t = texts(e, st, v); tg = e.tags_of(st, v)
                if "user" in tg and "fragment" not in tg or any(is_user(x) and x != UNK for x in t): self.violation("C19", e, st, "unescaped", i, "a value given by the user (%s) is written into the manifest without escaping" % "/".join(t))
            elif c == "c":
                if is_int(v) and chr(v & 255) in self.SPECIAL and self.user_char(e, i): self.violation("C19", e, st, "unescaped", i, "the character %s of a value given by the user is written into the manifest as it is" % chr(v & 255))
                if is_int(v) or not any("user" in e.S.tags[s] for s, _ in v[1]): continue
                self.ev("characters of user values written", i, e)
                for ch in self.SPECIAL:
                    if not e.is_ne0(st, sub(v, ord(ch))): self.violation("C19", e, st, "unescaped", i, "the character %s of a value given by the user is written into the manifest as it is" % ch)
def strobj2(e, st, alts):
    o = e.new_obj(st, "ext", None, "?", ("rec",)); p = T(o); set_text(e, st, p, alts); return p
def setup(e, st, a):
    MODE["e"] = e
    o = e.new_obj(st, "ext", 4, "?", ("errno",)); st.gval["errno"] = T(o)
    if len(a) == 2: a[0] = 2; v = e.new_obj(st, "ext", 24, "?", ("argv",)); a[1] = T(v); e.store(st, add(a[1], 8), 8, strobj(e, st, "argv1", "<argv1>"))
    return a
OPTS = dict(ptr_counters=True, leaf_loops=8, rec_depth=8, loop_states=1, merge_block=1, lump_arrays=True)
def run(c, only, root="doWork"):
    from engine import Engine
    m = Pkg(only); m.root = root; MODE["only"] = only
    live = {n: (lambda f: lambda e, st, a, i: [x for x in f(e, st, a, i) or [] if not x[0].ghost.get("dead")])(f) for n, f in P.items()}
    for it in range(8):
        m.changed = False; m.events = {}; m.seen = set(); m.stack = []
        k = len(c.findings); r = len(c.runs); cn = dict(c.counts)
        e = c.analyse("packagetool", root, m, [X, live], setup, opts=OPTS)
        if not m.changed: break
        del c.findings[k:]; del c.runs[r:]; c.counts = cn
    else: raise AnalysisError("the recursion does not reach a fixpoint")
    return m, e
# ------------------------------------------------------------------ the command line
class Args(TextHooks, Monitor):
    """validateArguments for 0 to 4 arguments"""
    def __init__(self, n): self.n = n; self.events = {}; self.seen = set()
    def ev(self, what, i=None, e=None): self.events[what] = self.events.get(what, 0) + 1
    def pre_call(self, e, st, name, args, i):
        g = st.ghost
        if name == "lookupArgument":
            n = st.fork(); n.ghost["bad"] = "an argument is unknown"; e.note(n, i, "the argument is unknown"); return [(st, 1), (n, 0)]
        if name == "containsKey":
            n = st.fork(); n.ghost["bad"] = "an argument is given twice"; e.note(n, i, "the argument was given before"); return [(st, 0), (n, 1)]
        if name == "addManifestData":
            self.ev("arguments stored"); t = [texts(e, st, x) for x in args[:2]]
            g["stored"] = g.get("stored", ()) + (tuple(t),)
            for x in t[1]:
                if x == "": e.report(st, "empty-value", i, "an argument without a value is accepted")
            return [(st, None)]
        return None
    def leave(self, e, st, name, args, rv):
        if len(e.callstack) != 1: return
        g = st.ghost; ok = e.compare_const(st, rv, 0)
        if ok is not True: self.ev("command lines accepted")
        if ok is not False: self.ev("command lines refused")
        if ok is True: return
        if g.get("bad"): e.report(st, "bad-argument-accepted", None, "the command line is accepted although " + g["bad"])
        if self.n % 2: e.report(st, "bad-argument-accepted", None, "the command line is accepted although an argument has no value"); return
        if len(g.get("stored", ())) != self.n // 2: e.report(st, "argument-lost", None, "the command line is accepted with %d arguments, %d are stored" % (self.n // 2, len(g.get("stored", ()))))
        for k, (a, b) in enumerate(g.get("stored", ())):
            if b != ("<argv%d>" % (2 * k + 2),): e.report(st, "wrong-value", None, "argument %d is stored with the value %s" % (k + 1, b))
def arguments(c):
    for n in range(5):
        m = Args(n)
        def setup(e, st, a):
            v = e.new_obj(st, "ext", 8 * (n + 2), "?", ("argv",))
            for k in range(1, n + 1): e.store(st, add(T(v), 8 * k), 8, strobj(e, st, "argv%d" % k, "<argv%d>" % k))
            return [n + 1, T(v)]
        e = c.analyse("packagetool", "validateArguments", m, [X], setup, opts=dict(rec_depth=2, loop_states=24))
