"""Interval/relational analysis of every path of the session from main() and of mlle_tool_version(): whenever the executable answers a
message recognised as VERSION with VERSION, the number converted from that message is provably at least MIN_PROTOCOL_VERSION and the number sent is
MAX_PROTOCOL_VERSION; whenever it answers ERROR 2, the number is provably below; no other answer is possible before a
VERSION was accepted, and LIB is answered with an error until then (replies that cannot be written count as sent). mlle_tool_version returns nonzero only on paths on which the converted number is
provably within [second argument, third argument]."""
from session import *
import toolsess, contracts, build
SCAN = ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf")
class Mon(Session):
    use = ("msg", "cmd")
    def on_message(self, e, st, i):
        for k in [k for k in st.gval if k.startswith("m:")]: del st.gval[k]
    def post(self, e, st, name, args, rv, i):
        if name in SCAN and e.rng(st, rv)[0] >= 1 and "peer" in e.tags_of(st, args[0]): st.gval["m:n"] = e.load(st, args[2], 8, ["i", 64], i)
        elif name in ("strtol", "strtoll", "atoi", "atol") and "peer" in e.tags_of(st, args[0]) and not is_int(rv): st.gval["m:n"] = rv
    def on_reply(self, e, st, word, num, tags, i):
        c = st.ghost.get("cmd"); n = st.gval.get("m:n"); ver = st.ghost.get("ver")
        if c == "LIB" and not ver:
            self.ev("LIB before version: %s %s" % (word, num))
            if word != "ERROR": e.report(st, "lib-before-version", i, "LIB is answered %s before a version was agreed on" % word)
        if c != "VERSION": return
        self.ev("version replies: %s %s" % (word, num if word == "ERROR" else ""))
        if word == "VERSION":
            if n is None or not e.ge0(st, sub(n, self.lo)): e.report(st, "version-accepted-below-minimum", i, "VERSION is accepted although its number was not found to be at least %d" % self.lo)
            if num is not None and num != self.hi: e.report(st, "wrong-version-sent", i, "the executable answers VERSION %d, its version is %d" % (num, self.hi))
            st.ghost["ver"] = 1
        elif word == "ERROR" and num == 2:
            if n is None or not e.ge0(st, sub(self.lo - 1, n)): e.report(st, "version-refused", i, "VERSION is refused with error 2 although its number was not found to be below %d" % self.lo)
        elif not ver and n is not None:
            if not (word == "ERROR" and num not in (1,)): e.report(st, "version-not-awaited", i, "VERSION is answered %s %s although no version was agreed on yet" % (word, num))
class Tool(toolsess.Tool):
    use = ("cmd", "num")
    def on_leave(self, e, st, args, rv):
        z = e.compare_const(st, rv, 0); n = st.gval.get("m:n")
        self.ev("mlle_tool_version outcomes: %s" % {True: "failure", False: "success"}.get(z, "?"))
        if z is not True:
            if n is None or not e.ge0(st, sub(n, self.args[1])): e.report(st, "version-below-tool-minimum", None, "mlle_tool_version succeeds although the version in the reply was not found to be at least its minimum")
            if n is None or not e.ge0(st, sub(self.args[2], n)): e.report(st, "version-above-tool-maximum", None, "mlle_tool_version succeeds although the version in the reply was not found to be at most its maximum")
def run(c):
    m = Mon(); m.lo = build.macro_int("mlle_lve.h", "MIN_PROTOCOL_VERSION", 1); m.hi = build.macro_int("mlle_lve.h", "MAX_PROTOCOL_VERSION", 1)
    c.rules["executable's range"] = [m.lo, m.hi]
    c.analyse("lve", "main", m, [contracts.CR, contracts.DIAG], session_args, opts=dict(SESSION_OPTS, no_wrfail=True), need=("SSL_write", "SSL_read"))
    for k in ("version replies: VERSION ", "version replies: ERROR 2", "LIB before version: ERROR 1"): c.need_count(k)
    t = Tool(); t.api = "mlle_tool_version"
    c.analyse("tool", t.api, t, [contracts.DIAG], toolsess.setup(t), opts=SESSION_OPTS, need=("SSL_write", "SSL_read"))
    for k in ("success", "failure"): c.need_count("mlle_tool_version outcomes: " + k)
