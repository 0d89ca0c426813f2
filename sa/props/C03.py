"""The dialogue order as an automaton (VERSION; then optional TOOLS; then LIB; then FEATURE, FILE, LICENSE, RETURNFEATURE, RETURNLICENSE)
runs along every abstract path of the session from main(), for the plain and the global-licence build. Its stage advances only on the
observed command word and reply. Rules: licence-manager calls and file opens happen only in the stage (and for the commands) that
allow them; a message whose command is not allowed in the current stage gets ERROR 1 and causes no such call; from every abstract
state of a session loop, an allowed command has a continuation that is not refused with ERROR 1 (so a refused command cannot have
moved the session elsewhere). Paths on which SSL_write itself fails are not followed (the session is over)."""
from session import *
import contracts
ALLOWED = {0: ("VERSION",), 1: ("TOOLS", "LIB"), 2: ("LIB",), 3: ("FEATURE", "FILE", "LICENSE", "RETURNFEATURE", "RETURNLICENSE")}
NAMES = {0: "before VERSION", 1: "after VERSION", 2: "after TOOLS", 3: "after LIB"}
class Mon(Session):
    use = ("msg", "cmd")
    reset = ("r", "eff")
    def __init__(self, prog): Session.__init__(self); self.prog = prog; self.obs = {}
    def stage(self, st): return st.ghost.get("stg", 0)
    def on_cmd(self, e, st, word, i):
        if st.ghost.get("eff"): e.report(st, "effect-before-command", i, "a licence call or file open happens before the command is known")
    def on_reply(self, e, st, word, num, tags, i):
        s = self.stage(st); c = st.ghost.get("cmd")
        if c is not None:
            self.ev("stage x command x reply: %d %s %s%s" % (s, c, word, num if word == "ERROR" else ""))
            if c not in ALLOWED[s] and (word, num) != ("ERROR", 1):
                e.report(st, "out-of-order-not-refused", i, "%s %s is answered with %s%s instead of error 1" % (c, NAMES[s], word, "" if num is None else " %d" % num))
        st.ghost["r"] = "%s%s" % (word, num if word == "ERROR" else "")
    def on_effect(self, e, st, name, args, i):
        if name == "mlle_license_free" or not st.ghost.get("msg"): return
        s = self.stage(st); c = st.ghost.get("cmd")
        if name.startswith("mlle_license_"):
            ok = s == 3 and c in ("FEATURE", "RETURNFEATURE") or self.prog == "lve_glob" and s in (1, 2) and c == "LIB"
            if name == "mlle_license_checkin_feature": ok = s == 3 and c == "RETURNFEATURE"
            elif name == "mlle_license_checkout_feature" and s == 3: ok = c == "FEATURE"
        else: ok = s == 3 and c == "FILE"
        self.ev("effects judged: %s at stage %d for %s" % (name, s, c))
        if not ok: e.report(st, "effect-out-of-order", i, "%s is called for %s %s" % (name, c or "an unrecognised command", NAMES[s]))
        st.ghost["eff"] = 1
    def advance(self, e, st):
        s = self.stage(st); c = st.ghost.get("cmd"); r = st.ghost.get("r")
        if c in ALLOWED[s] and r is not None:
            if s == 0 and r == "VERSION": st.ghost["stg"] = 1
            elif c == "TOOLS" and r != "ERROR1": st.ghost["stg"] = 2
            elif c == "LIB" and r in ("YES", "ERROR7"): st.ghost["stg"] = 3
    def on_message_end(self, e, st, i): self.advance(e, st)
    def post(self, e, st, name, args, rv, i):
        # a call made by the function that contains the session loop returned after the reply: note the outcome for the state the loop was in
        if st.org and st.ghost.get("r") and st.ghost.get("cmd"):
            fn = e.callstack[-1]
            self.obs.setdefault((fn, st.org), set()).add((self.stage(st), st.ghost["cmd"], st.ghost["r"]))
def run(c):
    for prog in ("lve", "lve_glob"):
        m = Mon(prog)
        e = c.analyse(prog, "main", m, [contracts.CR, contracts.DIAG], session_args, opts=dict(SESSION_OPTS, no_wrfail=True, alloc_fail=False), need=("SSL_write", "SSL_read", "mlle_license_checkout_feature", "fopen"))
        n = 0
        for (fn, org), ps in sorted(m.obs.items()):
            if not {"SSL_read", "SSL_write"} <= reach(e, fn): continue
            for s in {p[0] for p in ps}:
                for w in ALLOWED[s]:
                    rs = {p[2] for p in ps if p[0] == s and p[1] == w and p[2] is not None}
                    if not rs: continue
                    n += 1
                    if rs == {"ERROR1"}:
                        f = e.fns[fn]
                        c.report("allowed-command-refused", "%s:%s" % (relf(f.file), f.line), fn, "%s %s is always refused with error 1 from one of the session states the loop can be in" % (w, NAMES[s]))
        c.count("loop states x allowed commands checked", n)
    c.need_count("loop states x allowed commands checked", 12)
    for w in ("0 VERSION VERSION", "1 LIB YES", "3 FILE FILECONT", "3 FEATURE YES", "0 FILE ERROR1"): c.need_count("stage x command x reply: " + w)
def relf(f):
    from engine import relpath
    return relpath(f) if f else "?"
def reach(e, fn):
    """external calls made from the loops of fn, transitively"""
    f = e.fns[fn]; out = set()
    for h, body in f.loops.items():
        for b in body:
            for i in f.blocks[b]:
                if i["op"] == "call" and i["callee"][0] == "g":
                    n = i["callee"][1]
                    out |= {n} if n not in e.fns or e.fns[n].decl else e.closure(n)[0]
    return out
