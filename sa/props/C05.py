"""Event correlation on every path of the session from main() and of main() with --checkout-feature / --libpath: the reply to FEATURE,
RETURNFEATURE, LICENSE and RETURNLICENSE is compared with what the licence manager answered during that message (created / refused,
granted / refused), the feature handed to the licence manager is the payload of that very message with its announced length; in
command-line mode main returns 0 exactly when the library path was accepted (stat of it succeeded) and the feature given on the
command line was granted by a licence manager created for the path given there."""
from session import *
import contracts
class Mon(Session):
    use = ("msg", "cmd", "payload")
    reset = ("lic",)
    def on_cmd(self, e, st, word, i):
        for k in [k for k in st.gval if k.startswith("m:")]: del st.gval[k]
    def on_effect(self, e, st, name, args, i):
        c = st.ghost.get("cmd")
        if name in ("mlle_license_checkout_feature", "mlle_license_checkin_feature") and c in ("FEATURE", "RETURNFEATURE"):
            self.ev("feature arguments checked", i, e)
            if "payload:" + c not in e.tags_of(st, args[2]) or e.base_of(st, args[2])[1] != 0:
                e.report(st, "wrong-feature", i, "%s is not given the feature named in the %s message" % (name, c))
            n = st.gval.get("m:n")
            if n is not None and e.compare_const(st, sub(args[1], n), 0) is not True:
                e.report(st, "wrong-feature-length", i, "%s is not given the announced length of the feature name" % name)
            want = "mlle_license_checkout_feature" if c == "FEATURE" else "mlle_license_checkin_feature"
            if name != want: e.report(st, "wrong-operation", i, "%s calls %s" % (c, name))
    def on_effect_done(self, e, st, name, args, rv, i):
        if st.ghost.get("cmd") not in ("FEATURE", "RETURNFEATURE"): return
        z = e.compare_const(st, rv, 0) if rv is not None else None
        if name == "mlle_license_new": x = "n-" if z is True else "n+"
        elif name in ("mlle_license_checkout_feature", "mlle_license_checkin_feature"): x = "-" if z is True else "+"
        else: return
        st.ghost["lic"] = st.ghost.get("lic", "") + x
    def post(self, e, st, name, args, rv, i):
        if name in ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf") and e.rng(st, rv)[0] >= 1 and st.ghost.get("cmd"):
            st.gval["m:n"] = e.load(st, args[2], 8, ["i", 64], i)
    def on_reply(self, e, st, word, num, tags, i):
        c = st.ghost.get("cmd"); L = st.ghost.get("lic", "")
        r = word + (str(num) if word == "ERROR" else "")
        def bad(why): e.report(st, "reply-does-not-mirror-licence-manager", i, "%s is answered %s %s" % (c, r, why))
        if c in ("FEATURE", "RETURNFEATURE"):
            self.ev("licence outcome x reply: %s [%s] %s" % (c, L, r))
            if len(L.replace("n", "")) > 2: bad("after more than one licence operation")
            if word == "YES" and not L.endswith("+"): bad("although the licence manager did not grant it in this request")
            elif word == "YES" and L.endswith("n+"): bad("although the licence manager was not asked")
            elif word != "YES" and L.endswith("+") and not L.endswith("n+"): bad("although the licence manager granted it")
            elif L.endswith("n+"): bad("although the licence manager was not asked")
            elif L.endswith("n-"):
                if r != "ERROR7": bad("although the licence manager could not be set up")
            elif L.endswith("-"):
                if r != ("NO" if c == "FEATURE" else "ERROR7"): bad("although the licence manager refused it")
            elif L == "" and r not in ("ERROR1",): bad("without asking the licence manager")
        elif c in ("LICENSE", "RETURNLICENSE"):
            self.ev("licence replies: %s %s" % (c, r))
            if r not in ("NOTSIMPLE", "ERROR1"): bad("instead of NOTSIMPLE")
class Cli(Session):
    def on_effect(self, e, st, name, args, i):
        if name == "mlle_license_checkout_feature":
            self.ev("command-line checkouts", i, e)
            st.ghost["g"] = 0
            if "arg:feature" not in e.tags_of(st, args[2]): e.report(st, "wrong-feature", i, "the feature checked out is not the one given on the command line")
        elif name == "mlle_license_new":
            if "arg:lib" not in e.tags_of(st, args[0]): e.report(st, "wrong-library", i, "the licence manager is not created for the path given on the command line")
    def on_effect_done(self, e, st, name, args, rv, i):
        if name == "mlle_license_checkout_feature" and e.compare_const(st, rv, 0) is False: st.ghost["g"] = 1
        if name == "mlle_license_checkout_feature" and e.compare_const(st, rv, 0) is not False: st.ghost["refused"] = 1
        if name == "mlle_license_new" and e.compare_const(st, rv, 0) is True: st.ghost["refused"] = 1
    def pre(self, e, st, name, args, i):
        if name in ("stat", "stat64", "lstat", "access", "__xstat") and "arg:lib" in e.tags_of(st, args[0]):
            self.ev("library path tests", i, e)
            n = st.fork(); st.ghost["pathok"] = 1; n.ghost["pathbad"] = 1
            if name != "access":
                b, off = e.base_of(st, args[1])
                if b is not None: e.havoc_range(st, b, off, 144)
            return [(st, 0), (n, -1)]
    def on_end(self, e, st, args, rv):
        g = st.ghost
        ok = e.compare_const(st, rv, 0)
        self.ev("command-line exits: granted=%d path=%d" % (g.get("g", 0), g.get("pathok", 0)))
        if ok is not False and (not g.get("g") or not g.get("pathok") or g.get("pathbad") or g.get("refused")):
            e.report(st, "success-without-grant", None, "main returns success although %s" % ("the feature was not granted" if not g.get("g") else "the library path was not accepted"))
        if ok is not True and g.get("g") and g.get("pathok") and not g.get("pathbad") and not g.get("refused"):
            e.report(st, "failure-despite-grant", None, "main returns failure although path and feature were accepted")
def cli(e, st, a):
    def s(lit=None, tag=None):
        if lit is not None:
            o = e.new_obj(st, "stack", len(lit) + 1, "?", ("arg", lit))
            for k, ch in enumerate(lit + "\0"): e.store(st, add(T(o), k), 1, ord(ch))
            b = e.get_obj(st, o).same(); b.nul = True; st.objs[o] = b
            return T(o)
        o = e.new_obj(st, "ext", None, "?", ("arg", tag), frozenset([tag]))
        b = e.get_obj(st, o).same(); b.nul = True; st.objs[o] = b
        return T(o)
    v = e.new_obj(st, "ext", 48, "?", ("argv",))
    for k, p in enumerate([s("lve"), s("--checkout-feature"), s(None, "arg:feature"), s("--libpath"), s(None, "arg:lib")]): e.store(st, add(T(v), 8 * k), 8, p)
    e.store(st, add(T(v), 40), 8, 0)
    a[0] = 5; a[1] = T(v)
    return a
def run(c):
    for prog in ("lve",):
        c.analyse(prog, "main", Mon(), [contracts.CR, contracts.DIAG], session_args, opts=dict(SESSION_OPTS, no_wrfail=True), need=("SSL_write", "SSL_read", "mlle_license_checkout_feature", "mlle_license_checkin_feature"))
        c.analyse(prog, "main", Cli(), [contracts.CR, contracts.DIAG], cli, opts=dict(SESSION_OPTS), need=("mlle_license_checkout_feature",))
    for w in ("FEATURE [+] YES", "FEATURE [-] NO", "FEATURE [n-] ERROR7", "FEATURE [n++] YES", "RETURNFEATURE [+] YES", "RETURNFEATURE [-] ERROR7"): c.need_count("licence outcome x reply: " + w)
    for w in ("LICENSE NOTSIMPLE", "RETURNLICENSE NOTSIMPLE"): c.need_count("licence replies: " + w)
    c.need_count("feature arguments checked", 2); c.need_count("command-line exits: granted=1 path=1")
