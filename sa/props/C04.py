"""Counting automaton over TLS reads and writes on every path of the session from main(), for the plain and the global-licence build:
between the end of one received message and the next read (or the end of the process) exactly one SSL_write succeeds. Excused: paths on
which SSL_write itself failed or an allocation failed during this message. Message boundaries are recognised from SSL_read / SSL_pending /
SSL_want results only."""
from session import *
import contracts
class Mon(Session):
    use = ("msg", "rep")
    def on_message_end(self, e, st, i):
        self.ev("message ends")
        if not st.ghost.get("rep") and not excused(st):
            e.report(st, "no-reply", i, "a received message is left without a reply")
    def on_reply(self, e, st, word, num, tags, i):
        if not st.ghost.get("msg"): e.report(st, "unsolicited-reply", i, "%s is written although no message is being answered" % (word or "data"))
        elif st.ghost.get("rep"): e.report(st, "second-reply", i, "a second message (%s) is written in reply to one message" % (word or "data"))
    def post(self, e, st, name, args, rv, i):
        if name == "SSL_read" and e.rng(st, rv)[1] <= 0 and not st.ghost.get("rep"): st.ghost.pop("msg", None)     # connection lost mid-message
def run(c):
    for prog in ("lve", "lve_glob"):
        c.analyse(prog, "main", Mon(), [contracts.CR, contracts.DIAG], session_args, opts=dict(SESSION_OPTS, track_wrfail=True, track_allocfail=True), need=("SSL_write", "SSL_read"))
    c.need_count("message ends")
    for w in ("ERROR", "VERSION", "YES", "NO", "NOTSIMPLE", "FILECONT"): c.need_count("reply sites x words: " + w)
