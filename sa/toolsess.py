"""The tool library's side: one API call analysed on its own from its entry, with any connection, any argument text and an empty error cell."""
from session import *
API = {  # request word, reply words that mean success
 "mlle_tool_version": ("VERSION", ("VERSION",)), "mlle_tool_libpath": ("LIB", ("YES",)), "mlle_tool_feature": ("FEATURE", ("YES",)),
 "mlle_tool_returnfeature": ("RETURNFEATURE", ("YES",)), "mlle_tool_license": ("LICENSE", ("YES",)),
 "mlle_tool_returnlicense": ("RETURNLICENSE", ("YES",)), "mlle_tool_file": ("FILE", ("FILECONT",))}
class Tool(Session):
    use = ("cmd",)
    api = None; err = None
    def on_reply(self, e, st, word, num, tags, i):          # a request was written
        if self.api and len(st.ghost.get("sent", "").split()) < 3: st.ghost["sent"] = st.ghost.get("sent", "") + (word or "?") + " "
    def post(self, e, st, name, args, rv, i):
        if name == "SSL_read" and e.rng(st, rv)[1] > 0 and st.ghost.get("sent"): st.ghost["got"] = 1
        if "num" in self.use and name in ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf") and e.rng(st, rv)[0] >= 1:
            if "m:n" not in st.gval: st.gval["m:n"] = e.load(st, args[2], 8, ["i", 64], i)
        elif "num" in self.use and name in ("strtol", "strtoll", "atoi", "atol") and not is_int(rv) and "m:n" not in st.gval: st.gval["m:n"] = rv
    def on_leave(self, e, st, args, rv): pass
    def leave(self, e, st, name, args, rv):
        if name == self.api and len(e.callstack) == 1: self.on_leave(e, st, args, rv)
def setup(mon):
    def f(e, st, a):
        for k in range(len(a)): pass
        o = e.new_obj(st, "ext", 8, "z", ("errcell",)); e.store(st, T(o), 8, 0)
        a[-1] = T(o); mon.err = T(o)
        mon.args = list(a)
        for k, p in enumerate(a[1:-1]):
            b, off = e.base_of(st, p)
            if b is not None:
                x = e.get_obj(st, b).same(); x.nul = True; x.tags = x.tags | {"apiarg"}; st.objs[b] = x
        return a
    return f
def err_set(e, st, p):
    """-> True (an error is present) / False (none) / None"""
    b, off = e.base_of(st, p); o = e.get_obj(st, b); c = o.cells.get(off)
    v = 0 if c is None and o.fill == "z" else (None if c is None else e.norm(st, c[1]))
    if v is None: return None
    r = e.compare_const(st, v, 0)
    return None if r is None else not r
