"""Taint + typestate analysis of every path of the session from main(): whenever a file is opened (or handed to the decryptor) under a name
that contains bytes of a FILE message, the path has established that the received name contains no '..' and the name was formed
with the library directory of the LIB message, followed by '/', in front of the received bytes."""
from session import *
import contracts
class Mon(Session):
    use = ("msg", "cmd", "payload")
    reset = ("nodd", "libfirst")
    def on_absent(self, e, st, p, needle, i):
        if needle in ("..", ".") and "payload:FILE" in e.tags_of(st, p):
            b, off = e.base_of(st, p)
            if off == 0: st.ghost["nodd"] = 1; self.ev("'..' tests", i, e)
    def on_format(self, e, st, d, fmt, args, i):
        f = e.cstr(st, fmt) or ""
        tg = [e.tags_of(st, a) for a in args]
        if any("payload:FILE" in t for t in tg):
            if f.startswith("%s/") and args and "payload:LIB" in tg[0] and "payload:FILE" not in tg[0]: st.ghost["libfirst"] = 1
            else: st.ghost.pop("libfirst", None)
    def on_strcpy(self, e, st, d, s, n, i): self.on_place(e, st, d, s)
    def on_copy(self, e, st, d, s, n, i):
        Session.on_copy(self, e, st, d, s, n, i); self.on_place(e, st, d, s)
    def on_place(self, e, st, d, s):
        t = e.tags_of(st, s); b, off = e.base_of(st, d)
        if "payload:LIB" in t and "payload:FILE" not in t and off == 0 and st.ghost.get("cmd") == "FILE": st.ghost["libfirst"] = 1
    def check(self, e, st, p, i, what, libfirst):
        if "payload:FILE" not in e.tags_of(st, p): return False
        self.ev("file names checked", i, e)
        if not st.ghost.get("nodd"): e.report(st, "dotdot-not-excluded", i, "%s with a name received in a FILE message that was not checked for '..'" % what)
        if libfirst and not st.ghost.get("libfirst"): e.report(st, "not-below-library", i, "%s with a received name that is not placed below the library directory" % what)
        return True
    def on_effect(self, e, st, name, args, i):
        if name in ("fopen", "open", "freopen", "opendir"):
            if not self.check(e, st, args[0], i, name, True) and st.ghost.get("cmd") == "FILE" and e.cstr(st, args[0]) is None and "payload:LIB" not in e.tags_of(st, args[0]):
                e.report(st, "unknown-name", i, "%s with a name of unknown origin while answering FILE" % name)
    def pre(self, e, st, name, args, i):
        if name == "mlle_cr_decrypt": self.check(e, st, args[1], i, name, False)
def run(c):
    c.analyse("lve", "main", Mon(), [contracts.CR, contracts.DIAG], session_args, opts=SESSION_OPTS, need=("SSL_write", "SSL_read", "fopen"))
    c.need_count("file names checked", 2); c.need_count("command words recognised: FILE"); c.need_count("'..' tests")
