"""Typestate of the licence manager object on every path of the session from main() (plain and global-licence build):
created at most once and only with the path received in LIB, checkout / check-in only between creation and release, released
exactly once before main returns or the process exits."""
from session import *
import contracts
class Mon(Session):
    use = ("msg", "cmd", "payload")
    def on_effect(self, e, st, name, args, i):
        if not name.startswith("mlle_license_"): return
        L = st.ghost.get("L", 0); self.ev(name, i, e)
        if name == "mlle_license_new":
            if L: e.report(st, "created-twice", i, "a second licence manager is created in the session" if L == 1 else "a licence manager is created after release")
            if "payload:LIB" not in e.tags_of(st, args[0]): e.report(st, "wrong-library", i, "the licence manager is created for something other than the path received with LIB")
        elif L == 2: e.report(st, "use-after-release", i, "%s after the licence manager was released" % name)
        elif L == 0: e.report(st, "no-manager", i, "%s without a licence manager" % name)
        elif name == "mlle_license_free": st.ghost["L"] = 2
    def on_effect_done(self, e, st, name, args, rv, i):
        if name == "mlle_license_new" and e.compare_const(st, rv, 0) is not True: st.ghost["L"] = 1
    def on_end(self, e, st, args, rv):
        if st.ghost.get("L") == 1: e.report(st, "not-released", None, "the executable ends with the licence manager (and its checked-out licences) not released")
def run(c):
    for prog in ("lve", "lve_glob"):
        c.analyse(prog, "main", Mon(), [contracts.CR, contracts.DIAG], session_args, opts=SESSION_OPTS, need=("mlle_license_new", "mlle_license_free", "SSL_read"))
    for n in ("mlle_license_new", "mlle_license_free", "mlle_license_checkout_feature", "mlle_license_checkin_feature"): c.need_count(n)
