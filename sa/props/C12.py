"""Bounds, NULL, lifetime and termination analysis of every memory access (loads, stores, and the ranges read or written by every library call) on every path of the executable's
session from main() and of each tool API call, with arbitrary bytes received: an access through a pointer into an object of known (symbolic) size is provably inside it, no access goes through
NULL or into a freed object, strings read are terminated inside their object; and no byte of a received message is used beyond the bytes actually received."""
from session import *
import toolsess, contracts
from models import has_nul
class Bounds:
    def ok_access(self, e, st, p, size, write, i):
        p = e.norm(st, p)
        if is_int(p):
            if not (is_int(e.norm(st, size)) and e.norm(st, size) == 0): e.report(st, "null-dereference", i, "access through %s" % ("NULL" if p == 0 else "a constant"))
            return
        b, off = e.base_of(st, p)
        if b is None:
            if e.rng(st, p)[0] <= 0: e.report(st, "null-dereference", i, "access through a pointer that may be NULL")
            return
        o = e.get_obj(st, b)
        if o.freed: e.report(st, "use-after-free", i, "access to an object that was freed or went out of scope"); return
        if o.kind in ("fn",): return
        self.ev("accesses checked: call sites and instructions", i, e)
        if o.size is None: return
        off = e.norm(st, off); size = e.norm(st, size)
        if is_int(size) and size == 0: return
        if not e.ge0(st, off): e.report(st, "out-of-bounds", i, "%s before the start of an object (offset %s)" % ("write" if write else "read", e.show(st, off) if hasattr(e, "show") else off))
        elif not e.ge0(st, sub(o.size, add(off, size))):
            e.report(st, "out-of-bounds", i, "%s of %s bytes at offset %s of an object of %s bytes" % ("write" if write else "read", e.rng(st, size), e.rng(st, off), e.rng(st, o.size)))
        elif not write and o.kind == "heap" and (-1 in o.slen or o.fill == "u"):
            ini = o.slen.get(-1, 0)
            if off in o.cells and is_int(size) and o.cells[off][0] >= size: return
            if not e.ge0(st, sub(ini, add(off, size))): e.report(st, "bytes-never-received", i, "read of %s bytes at offset %s of a buffer of which only %s bytes were filled in" % (e.rng(st, size), e.rng(st, off), e.rng(st, ini)))
    def access(self, e, st, p, size, write, i): self.ok_access(e, st, p, size, write, i)
    def str_read(self, e, st, p, i):
        p = e.norm(st, p)
        if is_int(p):
            e.report(st, "null-dereference", i, "string read through NULL"); return
        b, off = e.base_of(st, p)
        if b is None:
            if e.rng(st, p)[0] <= 0: e.report(st, "null-dereference", i, "string read through a pointer that may be NULL")
            return
        o = e.get_obj(st, b); self.ev("string reads checked", i, e)
        if o.freed: e.report(st, "use-after-free", i, "string read from a freed object"); return
        if o.kind in ("const", "fn", "ext"): return
        if o.kind == "heap" and (-1 in o.slen or o.fill == "u") and not o.nul is True:
            ini = e.norm(st, o.slen.get(-1, 0))
            if not (o.nul == "last" and o.size is not None and e.ge0(st, add(sub(ini, o.size), 1))) and not any(sz == 1 and e.norm(st, v) == 0 and e.ge0(st, sub(k, off)) and e.ge0(st, sub(ini, k)) for k, (sz, v) in o.cells.items()):
                e.report(st, "bytes-never-received", i, "string read from a buffer of which only %s bytes were filled in" % (e.rng(st, ini),)); return
        if not has_nul(e, st, p): e.report(st, "unterminated-string", i, "a string is read from memory that need not contain a terminator")
class Lve(Bounds, Session): pass
class Tool(Bounds, toolsess.Tool): use = ()
def run(c):
    c.analyse("lve", "main", Lve(), [contracts.CR, contracts.DIAG], session_args, opts=dict(SESSION_OPTS, alloc_fail=True, track_init=True), need=("SSL_write", "SSL_read", "mlle_cr_decrypt"))
    for api in toolsess.API:
        m = Tool(); m.api = None
        c.analyse("tool", api, m, [contracts.DIAG], toolsess.setup(m), opts=dict(SESSION_OPTS, alloc_fail=True, track_init=True), need=("SSL_write", "SSL_read"))
