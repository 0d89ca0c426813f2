"""Typestate analysis of every path of the session of the executable built with a global licence feature (-DMLLE_GLOBAL_LICENSE_FEATURE):
a TLS write whose buffer may hold library file content (or a FILECONT reply) requires that on this path the licence manager granted a
checkout of exactly the configured feature (literal text and length)."""
from session import *
import contracts
FEAT = "GLOBFEAT"
class Mon(Session):
    def on_effect_done(self, e, st, name, args, rv, i):
        if name == "mlle_license_checkout_feature" and e.cstr(st, args[2]) is not None:
            self.ev("global checkout sites", i, e)
            if e.cstr(st, args[2]) == FEAT and e.compare_const(st, args[1], len(FEAT)) is True and e.compare_const(st, rv, 0) is False:
                st.ghost["glob"] = 1
    def on_reply(self, e, st, word, num, tags, i):
        c = [t for t in CONTENT if t in tags]
        if c or word == "FILECONT":
            self.ev("content writes", i, e)
            if not st.ghost.get("glob"):
                e.report(st, "content-without-global-licence", i, "file content (%s) is sent on a path on which the global licence feature was not granted" % (", ".join(c) or word))
def run(c):
    c.analyse("lve_glob", "main", Mon(), [contracts.CR, contracts.DIAG], session_args, opts=SESSION_OPTS, need=("SSL_accept", "SSL_write", "SSL_read", "fread"))
    c.need_count("content writes"); c.need_count("global checkout sites")
