"""Typestate analysis of every path of each tool API call (mlle_tool_version, _libpath, _feature, _returnfeature, _license, _returnlicense,
_file): success is returned only on paths on which exactly one request with the right command word was sent, bytes were received after it,
and the first token of what was received was found equal to a word that means success for that request; on success the caller's error
cell is still empty, on failure it holds an error
(unless memory ran out)."""
from toolsess import *
import contracts
class Mon(Tool):
    def on_leave(self, e, st, args, rv):
        ok = e.compare_const(st, rv, 0); g = st.ghost; word, good = API[self.api]; es = err_set(e, st, self.err)
        self.ev("api outcomes: %s %s after %s" % (self.api, "success" if ok is False else "failure" if ok is True else "?", g.get("cmd")))
        if ok is None: e.report(st, "result-undetermined", None, "%s can return a value that is neither success nor failure for a known reason" % self.api); return
        if ok is False:
            if g.get("sent", "").split() != [word]: e.report(st, "wrong-request", None, "%s succeeds after sending %s instead of one %s" % (self.api, g.get("sent", "nothing").strip(), word))
            if not g.get("got"): e.report(st, "success-without-reply", None, "%s succeeds although nothing was received after the request" % self.api)
            if g.get("cmd") not in good: e.report(st, "success-on-wrong-reply", None, "%s succeeds although the reply is %s" % (self.api, g.get("cmd", "not recognised")))
            if es is not False: e.report(st, "error-left-on-success", None, "%s succeeds but leaves an error" % self.api)
        elif es is not True and not excused(st): e.report(st, "failure-without-error", None, "%s fails (reply %s) without leaving an error" % (self.api, g.get("cmd", "none")))
def run(c):
    for api in API:
        m = Mon(); m.api = api
        c.analyse("tool", api, m, [contracts.DIAG], setup(m), opts=dict(SESSION_OPTS, track_allocfail=True), need=("SSL_write", "SSL_read"))
        for w in API[api][1]: c.need_count("api outcomes: %s success after %s" % (api, w))
        c.need_count("api outcomes: %s failure after ERROR" % api); c.need_count("api outcomes: %s failure after None" % api)
