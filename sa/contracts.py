"""Interface contracts used where a module is analysed on its own (assume-guarantee).
Each contract is itself the subject of a check: mlle_cr_decrypt / mlle_cr_create by C08, C12 (program 'cr')."""
from engine import T, add, sub, is_int, Infeasible
from models import bounds, ext_ptr, rd_str, fresh, strlen_of, set_strlen
CR = {}
def c(*names):
    def deco(f):
        for n in names: CR[n] = f
        return f
    return deco
@c("mlle_cr_create")
def _(e, st, a, i):
    rd_str(e, st, a[0], i)
    n = st.fork(); e.note(n, i, "mlle_cr_create fails (NULL)")
    if e.opts.get("track_allocfail"): n.ghost["allocfail"] = 1
    return [(st, ext_ptr(e, "cr_context")), (n, 0)]
@c("mlle_cr_free")
def _(e, st, a, i): return [(st, None)]
@c("mlle_cr_decrypt")
def _(e, st, a, i):
    """reads in[0..in_len), writes out[0..in_len), returns -1 or 0 <= r <= in_len"""
    if e.compare_const(st, a[2], 0) is not True: bounds(e, st, a[2], a[3], False, i, "mlle_cr_decrypt in"); bounds(e, st, a[4], a[3], True, i, "mlle_cr_decrypt out")
    n = st.fork(); e.note(n, i, "mlle_cr_decrypt fails (-1)"); e.note(st, i, "mlle_cr_decrypt succeeds")
    b, off = e.base_of(st, a[4])
    if b is not None: e.havoc_range(st, b, off, a[3], {"plain"})
    b, off = e.base_of(n, a[4])
    if b is not None: e.havoc_range(n, b, off, a[3], {"rejected"})
    v = fresh(e, ("crlen",), lo=0)
    out = [(n, -1)]
    try: e.assume_ge0(st, sub(a[3], v)); out.append((st, v))
    except Infeasible: pass
    return out

DIAG = {}
def _err(e, st, a, i):
    """writes a NUL-terminated diagnostic text of at most error_len bytes into error"""
    bounds(e, st, a[1], a[2], True, i, "ssl_get_error_string")
    b, off = e.base_of(st, a[1])
    if b is not None:
        e.havoc_range(st, b, off, a[2])
        o = e.get_obj(st, b)
        if o.kind not in ("const", "fn"): o = o.same(); o.nul = True; st.objs[b] = o
    return [(st, None)]
DIAG["ssl_get_error_string"] = _err
