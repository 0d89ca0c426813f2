"""Object-lifetime and taint analysis of every path of the routines that unpack a private or decryption key (set-up of the executable's and the tool's
TLS side, mlle_cr_decrypt, mlle_cr_encrypt): when the frame of a stack object that received key bytes ends, or a heap object that received them is freed, every byte of the key
has been overwritten with zeros on that path, by a store the compiler may not drop as dead (the CLEAR macro written by the header generator is read from the generator's
source: volatile or cleansing stores count, a plain memset counts only if a call that could observe the object follows). No key byte reaches stdio, the log, a file, a descriptor or SSL_write."""
import re
from engine import Monitor, is_int, add, sub
import contracts, build
from session import session_args, SESSION_OPTS, Session
SECRET = ("key:PRIVATE_KEY_LVE", "key:PRIVATE_KEY_TOOL", "key:MLLE_CR_KEY")
SINKS = ("fprintf", "printf", "puts", "fputs", "putchar", "fputc", "putc", "fwrite", "write", "SSL_write", "BIO_puts", "BIO_printf", "vfprintf", "vprintf", "syslog", "send", "perror", "setenv", "putenv")
QUIET = ("free", "memset", "memcpy", "strlen", "strcmp", "memcmp", "__sa_init_key", "__sa_clear_key")   # calls the compiler knows do not observe other objects
class Mon(Session):
    droppable = False
    def secret(self, t): return [x for x in t if x in SECRET]
    def wiped(self, e, st, o):
        if o.fill == "z" and not o.cells: return True
        need = o.size - 1 if is_int(o.size) else None
        if need is None: return False
        k = 0
        for a, b in sorted((z for z in o.zero if is_int(z[0]) and is_int(z[1]))):
            if a <= k: k = max(k, b)
        return k >= need and not any(is_int(c) and c < need and e.norm(st, v[1]) != 0 or not is_int(c) for c, v in o.cells.items())
    def check(self, e, st, b, o, i, how):
        self.ev("key objects followed to the end of their life, paths")
        t = self.secret(o.tags)
        if not t: return
        if not self.wiped(e, st, o): e.report(st, "key-not-wiped", i, "%s with bytes of %s %s without having been overwritten" % (o.name if isinstance(o.name, str) else "memory", t[0][4:], how))
    def keep(self, e, st, p, i):
        """remember an object that received key bytes (also when no variable points to it any more)"""
        b, _ = e.base_of(st, p)
        if b is not None and e.get_obj(st, b).kind in ("stack", "heap"): st.gval["k:%s:%s" % (e.get_obj(st, b).name, e.site(i))] = (0, ((b, 1),))
    def on_copy(self, e, st, d, s, n, i):
        if self.secret(e.tags_of(st, s)): self.keep(e, st, d, i)
    def on_strcpy(self, e, st, d, s, n, i): self.on_copy(e, st, d, s, n, i)
    def on_tagged_store(self, e, st, p, tags, i):
        if self.secret(tags): self.keep(e, st, p, i)
    def on_format(self, e, st, d, fmt, vals, i):
        t = set()
        for a in vals:
            if is_int(a): continue
            t |= set(self.secret(e.tags_of(st, a)))
            for x in a[1]: t |= set(self.secret(e.S.tags[x[0]]))
        if t: e.add_tags(st, d, t); self.keep(e, st, d, i)
    def post(self, e, st, name, args, rv, i):
        if name in ("strdup", "strndup") and not is_int(rv) and self.secret(e.tags_of(st, args[0])): self.keep(e, st, rv, i)
    def leave(self, e, st, name, args, rv):
        d = len(st.frames)
        for k in [k for k in st.gval if k.startswith("k:")]:
            b, _ = e.base_of(st, st.gval[k]); o = st.objs.get(b)
            if o is None or o.freed: del st.gval[k]; continue
            if o.kind == "stack" and e.S.name[b][-1] == d: self.check(e, st, b, o, None, "goes out of scope in %s" % name); del st.gval[k]
            elif o.kind == "heap" and d == 1: self.check(e, st, b, o, None, "is abandoned by %s" % name)
        for k in [k for k in st.gval if k.startswith("dr:")]:
            b, _ = e.base_of(st, st.gval[k])
            if b is not None and b in st.objs and st.objs[b].kind == "stack" and e.S.name[b][-1] == d:
                e.report(st, "wipe-is-dead-store", None, "the key wiped last thing in %s: the plain memset may be dropped by the compiler" % name); del st.gval[k]
    def on_free(self, e, st, p, i):
        b, _ = e.base_of(st, p)
        if b is not None and b in st.objs: self.check(e, st, b, st.objs[b], i, "is freed")
    def pre(self, e, st, name, args, i):
        if name == "__sa_init_key":
            self.ev("keys unpacked", i, e)
            if self.secret(["key:" + (e.cstr(st, args[2]) or "")]): self.keep(e, st, args[0], i)
        f = e.fns.get(name)
        if self.droppable:
            if name == "__sa_clear_key":
                if self.secret(e.tags_of(st, args[0])): st.gval["dr:" + str(e.norm(st, args[0])[1][0][0])] = args[0]
            elif (f is None or f.decl) and name not in QUIET and not name.startswith("llvm."):
                for k in [k for k in st.gval if k.startswith("dr:")]: del st.gval[k]
        if name in SINKS:
            self.ev("sink call sites checked", i, e)
            for a in args:
                if is_int(a): continue
                t = set(self.secret(e.tags_of(st, a)))
                for x in a[1]: t |= set(self.secret(e.S.tags[x[0]]))
                if t: e.report(st, "key-disclosed", i, "bytes of %s reach %s" % (sorted(t)[0][4:], name))
        return None
def clear_form(c):
    """what the generator writes as CLEAR macro -> (kind, whole)"""
    out = set()
    for prog in ("obfuscate", "randomize_key"):
        m = build.module_json(prog); e = None
        from engine import Engine
        e = Engine(m, Monitor(), [], {})
        for g in e.globals:
            s = None
            try:
                cells = {k: v for k, _, v in e.globals[g]["cells"]}
                s = "".join(chr(cells[k][1] & 255) for k in range(len(cells)) if cells[k][0] == "c" and cells[k][1])
            except Exception: continue
            if s.startswith("#define CLEAR_"): out.add(s)
    return out
def run(c):
    fs = clear_form(c); c.rules["CLEAR macro written by the generator"] = sorted(fs)
    if not fs: raise build.AnalysisError("anchor vanished: the key header generators write no CLEAR macro")
    drop = False; whole = True
    for f in fs:
        body = f.split(")", 1)[1]
        if re.search(r"\bvolatile\b", body) or re.search(r"OPENSSL_cleanse|explicit_bzero|SecureZeroMemory|memset_s|memset_explicit", body): pass
        elif re.search(r"\bmemset\s*\(", body): drop = True
        else: c.report("wipe-unknown", "src/embedfile", "generator", "the CLEAR macro written by the generator does not overwrite the key: %s" % f.strip())
        if not re.search(r"sizeof|_LEN", body): c.report("wipe-partial", "src/embedfile", "generator", "the CLEAR macro written by the generator does not cover the key: %s" % f.strip())
        if "sizeof" not in body: whole = False
    o = dict(opaque_notags=True, store_tags=True, clear_whole=whole, lump=("mlle_log",), alloc_fail=True)
    for prog, root, mods, args, x in (("lve", "main", [contracts.CR, contracts.DIAG], session_args, dict(SESSION_OPTS)), ("tool", "mlle_start_executable", [contracts.DIAG], None, {}),
                             ("cr", "mlle_cr_decrypt", [contracts.CR], None, {}), ("cr", "mlle_cr_encrypt", [], None, {})):
        m = Mon(); m.droppable = drop
        x.update(o); c.analyse(prog, root, m, mods, args, opts=x, need=("__sa_init_key",))
    c.need_count("keys unpacked", 4); c.need_count("key objects followed to the end of their life, paths")
