"""Output-file typestate over every path of the encrypt and decrypt programs (every number of arguments) and of mlle_cr_encrypt. Every open, read, write, close, encryption and decryption forks into
success and each kind of failure (also a name that does not fit its buffer). Rules: a file is opened for writing only under the name given on the command line (encrypt: second argument, below the third if
given; decrypt: third argument), and the input read is the named one; exit status zero only if the output was opened, the encryption or decryption succeeded, all the bytes it produced were
written and the file was closed, all without failure; a nonzero exit leaves no output file behind (it was not created, or removed under the same name). mlle_cr_encrypt reports success only if the source
was read to its end and no read, write or cryptographic step failed."""
from engine import T, add, sub, is_int, Infeasible, Monitor
from models import fresh, ext_ptr
from build import AnalysisError
import text, re
from text import texts, set_text, TextHooks, UNK
Y = {}
def model(*names):
    def deco(f):
        for n in names: Y[n] = f
        return f
    return deco
def tot(a, b):
    from models import scale
    return scale(a, b) if is_int(b) else scale(b, a) if is_int(a) else None
def has(e, st, h, tag):
    b, _ = e.base_of(st, e.norm(st, h))
    return b is not None and tag in e.get_obj(st, b).tags
@model("strlen")
def _(e, st, a, i):
    t = texts(e, st, a[0])
    if len(t) == 1 and t[0].startswith("<argv") and t[0].count("<") == 1: return [(st, e.monitor.length(e, t[0]))]
    return text.X["strlen"](e, st, a, i)
@model("strcpy", "stpcpy")
def _(e, st, a, i):
    t = texts(e, st, a[1]); b, off = e.base_of(st, a[0])
    if b is not None and len(t) == 1 and "<argv" in t[0]:
        o = e.get_obj(st, b); n = e.monitor.length(e, t[0])
        if o.size is not None and not e.ge0(st, sub(sub(sub(o.size, off), n), 1)): e.report(st, "name-too-long", i, "%s need not fit the buffer it is copied into" % t[0])
    return text.X["strcpy"](e, st, a, i)
@model("llvm.memcpy.p0.p0.i64", "memcpy", "memmove", "llvm.memmove.p0.p0.i64")
def _(e, st, a, i):
    k = e.monitor.copied(e, st, *a[:3], i) if isinstance(e.monitor, Main) else None
    out = text.BASE[i["callee"][1]](e, st, a, i)
    if k is not None: e.monitor.put(e, st, *k)
    return out
@model("snprintf")
def _(e, st, a, i):
    t = text.formatted(e, st, a[2], a[3:], i) or (UNK,)
    L = e.monitor.length(e, t[0]) if len(t) == 1 else fresh(e, ("formatted",), lo=0, hi=2**31 - 1)
    n = st.fork(); out = []
    try: e.assume_ge0(st, sub(sub(a[1], L), 1)); set_text(e, st, a[0], t); out.append((st, L))
    except Infeasible: pass
    try: e.assume_ge0(n, sub(L, a[1])); e.note(n, i, "the text is too long and is cut off"); set_text(e, n, a[0], ("<cut>",)); out.append((n, L))
    except Infeasible: pass
    return out
@model("fopen", "fopen64")
def _(e, st, a, i):
    t = texts(e, st, a[0]); mode = e.cstr(st, a[1])
    if mode is None: raise AnalysisError("a file is opened in an unknown mode")
    w = any(c in mode for c in "wa+"); m = e.monitor
    m.ev("files opened for " + ("writing" if w else "reading"), i, e)
    want = m.out if w else m.inp
    for x in t:
        if x != want: e.report(st, "wrong-output-name" if w else "wrong-input-name", i, "%s is opened for %s, the command line names %s" % (x, "writing" if w else "reading", want))
    o = e.new_obj(st, "ext", None, "?", ("FILE", e.site(i)), frozenset({"f|w" if w else "f|r"}))
    n = st.fork(); e.note(n, i, "the file cannot be opened"); n.ghost["fail"] = "%s cannot be opened" % want
    if w: st.ghost["created"] = 1; st.ghost.pop("closed", None)
    else: st.ghost["opened"] = 1
    return [(st, T(o)), (n, 0)]
@model("fclose")
def _(e, st, a, i):
    if is_int(e.norm(st, a[0])): return []
    if not has(e, st, a[0], "f|w"): return [(st, 0)]
    n = st.fork(); e.note(n, i, "closing the output fails"); n.ghost["fail"] = "the output cannot be written out"
    st.ghost["closed"] = n.ghost["closed"] = 1
    return [(st, 0), (n, -1)]
@model("fflush")
def _(e, st, a, i):
    if is_int(e.norm(st, a[0])) or not has(e, st, a[0], "f|w"): return [(st, 0)]
    n = st.fork(); n.ghost["fail"] = "the output cannot be written out"; return [(st, 0), (n, -1)]
@model("fread")
def _(e, st, a, i):
    t = tot(a[1], a[2]); b, off = e.base_of(st, a[0])
    if b is not None: e.havoc_range(st, b, off, t, {"file"})
    full, eof, err = st, st.fork(), st.fork(); out = []
    if not st.ghost.get("eof") and not st.ghost.get("rerr"): out.append((full, a[2]))
    v = fresh(e, ("short",), lo=0)
    try: e.assume_ge0(eof, sub(sub(a[2], v), 1)); eof.ghost["eof"] = 1; e.note(eof, i, "the end of the file is reached"); out.append((eof, v))
    except Infeasible: pass
    w = fresh(e, ("short",), lo=0)
    try: e.assume_ge0(err, sub(sub(a[2], w), 1)); err.ghost["rerr"] = 1; err.ghost["fail"] = "the input cannot be read"; e.note(err, i, "reading fails"); out.append((err, w))
    except Infeasible: pass
    return out
@model("getc", "fgetc")
def _(e, st, a, i):
    n, m = st.fork(), st.fork(); n.ghost["eof"] = 1; m.ghost["rerr"] = 1; m.ghost["fail"] = "the input cannot be read"
    return [(st, fresh(e, ("getc",), lo=0, hi=255)), (n, -1), (m, -1)]
@model("feof")
def _(e, st, a, i): return [(st, 1 if st.ghost.get("eof") else 0)]
@model("ferror")
def _(e, st, a, i): return [(st, 1 if st.ghost.get("werr" if has(e, st, a[0], "f|w") else "rerr") else 0)]
@model("clearerr", "rewind")
def _(e, st, a, i): st.ghost.pop("rerr", None); st.ghost.pop("eof", None); st.ghost.pop("werr", None); return [(st, None)]
@model("fwrite")
def _(e, st, a, i):
    m = e.monitor; g = st.ghost; m.ev("output writes", i, e)
    n = st.fork(); q = st.fork(); v = fresh(e, ("fwrite",), lo=0); u = fresh(e, ("fwrite",), lo=1); out = []
    t = tot(a[1], a[2]); p = st.gval.get("dec:p"); k = st.gval.get("dec:n")
    if p is not None and e.norm(st, a[1]) == 1 and e.norm(st, sub(a[0], add(p, st.gval.get("dec:o", 0)))) == 0:       # a part is written: the rest has to follow
        try:
            e.assume_ge0(q, sub(sub(a[2], u), 1)); q.ghost["werr"] = 1; q.gval["dec:o"] = e.norm(q, add(q.gval.get("dec:o", 0), u)); out.append((q, u)); v = 0
        except Infeasible: pass
    out.append((st, a[2]))
    try:
        e.assume_ge0(n, sub(sub(a[2], v), 1)); n.ghost["fail"] = "the output cannot be written"; n.ghost["werr"] = 1; e.note(n, i, "writing fails"); out.append((n, v))
    except Infeasible: pass
    if g.get("closed"): e.report(st, "write-after-close", i, "the output is written after it was closed")
    if p is not None and t is not None:
        if e.norm(st, sub(a[0], p)) == 0 and e.norm(st, sub(t, k)) == 0: g["written"] = 1
        elif e.norm(st, sub(a[0], add(p, st.gval.get("dec:o", 0)))) == 0: st.gval["dec:o"] = e.norm(st, add(st.gval.get("dec:o", 0), t))
    return out
@model("remove", "unlink")
def _(e, st, a, i):
    t = texts(e, st, a[0]); m = e.monitor; m.ev("removals", i, e)
    if not t: return []
    if t == (m.out,): st.ghost.pop("created", None); st.ghost["removed"] = 1
    else: e.report(st, "wrong-file-removed", i, "%s is removed, the output is %s" % ("/".join(t), m.out))
    n = st.fork(); return [(st, 0), (n, -1)]
@model("mlle_cr_create")
def _(e, st, a, i):
    n = st.fork(); n.ghost["fail"] = "no context can be created"; return [(st, ext_ptr(e, "cr_context")), (n, 0)]
@model("mlle_cr_free")
def _(e, st, a, i): return [(st, None)]
@model("mlle_cr_encrypt")
def _(e, st, a, i):
    g = st.ghost; e.monitor.ev("encryptions", i, e)
    if is_int(e.norm(st, a[2])) or is_int(e.norm(st, a[3])): return []
    if not has(e, st, a[2], "f|r") or not has(e, st, a[3], "f|w"): e.report(st, "wrong-stream", i, "the encryption does not go from the input file to the output file")
    if e.compare_const(st, a[0], 0) is True: e.report(st, "crash", i, "mlle_cr_encrypt is called without a context"); return []
    n = st.fork(); n.ghost["fail"] = "the encryption failed"; e.note(n, i, "mlle_cr_encrypt fails"); e.note(st, i, "mlle_cr_encrypt succeeds"); st.ghost["written"] = 1
    return [(st, 1), (n, 0)]
@model("mlle_cr_decrypt")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "mlle_cr_decrypt fails"); v = fresh(e, ("crlen",), lo=0, hi=2**31 - 1)
    if e.compare_const(st, a[2], 0) is True: n.ghost["fail"] = "the key masks cannot be read"; return [(st, 0), (n, -1)]
    if e.compare_const(st, a[0], 0) is True: e.report(st, "crash", i, "mlle_cr_decrypt is called without a context"); return []
    e.monitor.ev("decryptions", i, e); n.ghost["fail"] = "the decryption failed"
    for s in (st, n):
        b, off = e.base_of(s, a[4])
        if b is not None: e.havoc_range(s, b, off, a[3])
    out = [(n, fresh(e, ("crerr",), lo=-2**31, hi=-1))]
    try: e.assume_ge0(st, sub(a[3], v)); st.gval["dec:p"] = a[4]; st.gval["dec:n"] = v; st.ghost.pop("rerr", None); st.ghost.pop("fail", None) if "input cannot be read" in str(st.ghost.get("fail")) else None; out.append((st, v))
    except Infeasible: pass
    return out
class Main(TextHooks, Monitor):
    root = "main"
    def __init__(self, inp, out): self.events = {}; self.inp = inp; self.out = out; self.lens = {}; self.seen = set()
    def ev(self, k, i=None, e=None):
        s = (k, e.site(i) if i is not None and e is not None else None)
        if s not in self.seen: self.seen.add(s); self.events[k] = self.events.get(k, 0) + 1
    def length(self, e, t):
        """the length of a text: the sum of the lengths of its literals and atoms"""
        p = re.findall(r"<[^>]*>|[^<]+", t)
        if len(p) != 1 or p[0][0] != "<": 
            n = 0
            for x in p: n = add(n, self.length(e, x) if x[0] == "<" else len(x))
            return n
        if t in (UNK, "<cut>"): return fresh(e, ("len", t), lo=0, hi=2**31 - 1)
        if t not in self.lens: self.lens[t] = fresh(e, ("len", t), lo=0, hi=2**31 - 1)
        return self.lens[t]
    def partial(self, e, st, p):
        """text so far and its length, if p points right behind it (a string that is put together piece by piece)"""
        b, off = e.base_of(st, p)
        if b is None: return None
        t = [x[2:] for x in e.get_obj(st, b).tags if x[:2] == "t|"]
        if e.norm(st, off) == 0: return b, ""
        if len(t) == 1 and UNK not in t[0] and e.norm(st, sub(off, self.length(e, t[0]))) == 0: return b, t[0]
        return None
    def put(self, e, st, b, t):
        o = e.get_obj(st, b)
        if o.kind in ("const", "fn"): return
        n = o.copy(); n.tags = frozenset(x for x in o.tags if x[:2] != "t|") | {"t|" + t}; st.objs[b] = n
    def on_copy(self, e, st, d, s, n, i): pass
    def copied(self, e, st, d, s, n, i):
        """the text at d after n bytes of the text at s are copied there"""
        t = texts(e, st, s); k = self.partial(e, st, d)
        if k is not None and len(t) == 1 and UNK not in t[0] and e.norm(st, sub(n, self.length(e, t[0]))) in (0, 1): return k[0], k[1] + t[0]
        b, off = e.base_of(st, d)
        return (b, UNK) if b is not None and any(x[:2] == "t|" for x in e.get_obj(st, b).tags | e.tags_of(st, s)) else None
    def access(self, e, st, p, n, write, i):
        if write and i["op"] == "store":
            b, off = e.base_of(st, p); t = () if b is None else [x[2:] for x in e.get_obj(st, b).tags if x[:2] == "t|"]
            if t and e.norm(st, off) != 0:
                k = self.partial(e, st, p)
                if k is not None:
                    v = e.norm(st, e.ev(st, i["ops"][0]))
                    if v != 0: self.put(e, st, b, k[1] + chr(v) if is_int(v) and 32 <= v < 127 and chr(v) not in "<>" else UNK)
                    return
            self.store_byte(e, st, p, i)
    def leave(self, e, st, name, args, rv):
        if name == "main": self.on_exit(e, st, rv, None)
    def on_exit(self, e, st, status, i):
        g = st.ghost; z = e.compare_const(st, status, 0)
        if z is not True and g.get("created"): e.report(st, "partial-output-left", i, "the program fails (%s) and leaves the output file behind" % g.get("fail", "?"))
        if z is not True: self.ev("exits: failure", i, e)
        if z is False: return
        self.ev("exits: success")
        if g.get("fail"): e.report(st, "failure-ignored", i, "exit status zero although " + g["fail"])
        elif not g.get("created"): e.report(st, "no-output", i, "exit status zero without an output file")
        elif not g.get("written"):
            k = st.gval.get("dec:n"); o = st.gval.get("dec:o")
            if k is None or not e.ge0(st, sub(o or 0, k)): e.report(st, "output-incomplete", i, "exit status zero although not everything that was produced was written")
        if not g.get("fail") and g.get("created") and not g.get("closed"): e.report(st, "not-closed", i, "exit status zero without the output having been closed and so written out")
def setup(n):
    def f(e, st, a):
        v = e.new_obj(st, "ext", 8 * (n + 1), "?", ("argv",)); e.store(st, add(T(v), 8 * n), 8, 0)
        for k in range(n):
            o = e.new_obj(st, "ext", None, "?", ("argv%d" % k,)); e.add_tags(st, T(o), {"t|<argv%d>" % k}); e.store(st, add(T(v), 8 * k), 8, T(o))
        return [n, T(v)]
    return f
class Lib(Monitor):
    root = "mlle_cr_encrypt"
    def __init__(self): self.events = {}; self.seen = set(); self.inp = self.out = None
    ev = Main.ev
    def post_call(self, e, st, name, args, rv, i):
        if name in ("EVP_EncryptInit_ex", "EVP_EncryptUpdate", "EVP_EncryptFinal_ex", "HMAC_Init_ex", "HMAC_Update", "HMAC_Final", "EVP_CipherInit_ex", "EVP_CipherUpdate", "EVP_CipherFinal_ex"):
            self.ev("cryptographic steps", i, e)
            if e.compare_const(st, rv, 0) is not False: st.ghost["fail"] = "%s failed" % name
    def leave(self, e, st, name, args, rv):
        if name != "mlle_cr_encrypt": return
        z = e.compare_const(st, rv, 0)
        self.ev("encryption outcomes: " + ("failure" if z is True else "success"))
        if z is True: return
        if st.ghost.get("fail"): e.report(st, "failure-ignored", None, "mlle_cr_encrypt reports success although " + st.ghost["fail"])
        elif not st.ghost.get("eof"): e.report(st, "source-not-read", None, "mlle_cr_encrypt reports success although the source was not read to its end")
def lib(c):
    m = Lib()
    def args(e, st, a):
        a[2] = T(e.new_obj(st, "ext", None, "?", ("in",), frozenset({"f|r"}))); a[3] = T(e.new_obj(st, "ext", None, "?", ("out",), frozenset({"f|w"})))
        return a
    Z = {k: Y[k] for k in ("fread", "fwrite", "feof", "ferror", "clearerr", "getc", "fgetc", "fflush")}
    e = c.analyse("cr", "mlle_cr_encrypt", m, [Z], args, opts=dict(any_globals=True, alloc_fail=True, lump=("mlle_log",)), need=("fread", "fwrite", "EVP_EncryptUpdate"))
def run(c):
    opts = dict(lump=("mlle_log",), truncation=True)
    for prog, n, inp, out in (("encrypt_file", 3, "<argv1>", "<argv2>"), ("encrypt_file", 4, "<argv1>", "<argv3>/<argv2>"), ("decrypt_file", 4, "<argv1>/<argv2>", "<argv3>"),
                              ("encrypt_file", 1, None, None), ("encrypt_file", 2, None, None), ("encrypt_file", 5, None, None), ("decrypt_file", 1, None, None), ("decrypt_file", 2, None, None), ("decrypt_file", 3, None, None), ("decrypt_file", 5, "<argv1>/<argv2>", "<argv3>")):
        m = Main(inp, out)
        e = c.analyse(prog, "main", m, [text.X, Y], setup(n), opts=opts)
        if inp and n < 5:
            for k in ("exits: success", "exits: failure"):
                if not m.events.get(k): raise AnalysisError("analysis is vacuous: no %s of %s with %d arguments" % (k, prog, n - 1))
    for k in ("files opened for writing", "files opened for reading", "removals", "encryptions", "decryptions"): c.need_count(k)
    lib(c)
    for k in ("encryption outcomes: success", "encryption outcomes: failure", "cryptographic steps"): c.need_count(k)
