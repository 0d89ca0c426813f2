"""Typestate analysis of the file reading API over histories: mlle_tool_file from any connection and received bytes, then, from each of its success exits, mlle_tool_read_bytes repeatedly
with a caller buffer of any size, then mlle_file_contents_free. Rule: every byte written to the caller's buffer lies inside it; the bytes handed out are copied
from the received payload at exactly the offset the earlier calls together handed out, and never beyond the file size reported by mlle_tool_get_file_size; the value returned is
the number of bytes copied, or -1 with nothing copied, the latter only when everything was handed out; nothing is used after it was freed or freed twice, and nothing stays allocated that the API owns."""
from session import *
import toolsess, contracts
from engine import Engine, State, INF
from props import C12
from build import AnalysisError
class Mon(C12.Bounds, toolsess.Tool):
    use = (); phase = "file"
    def on_copy(self, e, st, d, s, n, i):
        if self.phase != "read": return
        bd, od = e.base_of(st, d)
        if bd is None or bd != e.base_of(st, st.gval["ubuf"])[0]: return
        bs, os_ = e.base_of(st, s); n = e.norm(st, n); h = st.gval["handed"]; size = st.gval["fsize"]; done = st.gval["now"]
        self.ev("copies to the caller's buffer", i, e)
        if is_int(n) and n == 0: return
        if bs is None: e.report(st, "wrong-source", i, "bytes handed out do not come from the received file"); return
        so = e.get_obj(st, bs)
        if so.kind != "heap" or -1 not in so.slen: e.report(st, "wrong-source", i, "bytes handed out do not come from the received file content"); return
        if not eq(e, st, os_, add(h, done)): e.report(st, "wrong-order", i, "bytes handed out start at offset %s of the file, %s were handed out before" % (e.rng(st, os_), e.rng(st, add(h, done))))
        if not eq(e, st, od, done): e.report(st, "wrong-place", i, "bytes are put at offset %s of the caller's buffer" % (e.rng(st, od),))
        if not e.ge0(st, sub(size, add(add(h, done), n))): e.report(st, "beyond-file", i, "more bytes are handed out than the file has")
        st.gval["now"] = e.norm(st, add(done, n))
    def on_free(self, e, st, p, i):
        p = e.norm(st, p)
        if is_int(p): return
        b, off = e.base_of(st, p)
        if b is None: return
        o = e.get_obj(st, b); self.ev("frees checked", i, e)
        if o.freed: e.report(st, "double-free", i, "an object is freed twice")
        elif o.kind == "stack" or not (is_int(off) and off == 0): e.report(st, "bad-free", i, "free of memory that was not allocated")
        elif "apibuf" in o.tags: e.report(st, "bad-free", i, "the caller's buffer is freed")
def eq(e, st, a, b):
    d = e.norm(st, sub(a, b))
    return d == 0 or (e.ge0(st, d) and e.ge0(st, neg(d)))
def run(c):
    m = Mon(); m.api = None
    e = c.analyse("tool", "mlle_tool_file", m, [contracts.DIAG], toolsess.setup(m), opts=dict(SESSION_OPTS, alloc_fail=True, track_init=True, track_allocfail=True), need=("SSL_write", "SSL_read"))
    for f in ("mlle_tool_get_file_size", "mlle_tool_read_bytes", "mlle_file_contents_free"):
        if f not in e.fns or e.fns[f].decl: raise AnalysisError("anchor vanished: function %s" % f)
    def uniq(states, extra):
        seen = {}; 
        for s, h in states:
            k = e.canon(s, (), extra=tuple([h]))
            if k not in seen: seen[k] = (s, h)
        return list(seen.values())
    opened = []
    for st, rv in e.exits:
        if e.compare_const(st, rv, 0) is not False: continue
        st.gval["h"] = rv
        for s, size in e.run_function("mlle_tool_get_file_size", [rv], st):
            s.gval["fsize"] = size; s.gval["handed"] = 0; s.gval["now"] = 0; s.trace = None
            s.gval.pop("m:n", None); s.ghost = {}; opened.append((s, s.gval["h"]))
    opened = uniq(opened, ())
    if not opened: raise AnalysisError("analysis is vacuous: mlle_tool_file never succeeds")
    nv = len(e.violations); calls = 0
    cur = opened; rounds = 3 if c.tier == "quick" else 5
    for k in range(rounds):
        nxt = []
        for st, h in cur:
            m.phase = "read"; st = st.fork()
            n = e.fresh(("bufsize",), lo=0, hi=2**40); b = e.new_obj(st, "heap", n, "?", ("callerbuf",), frozenset(["apibuf"]))
            st.gval["ubuf"] = T(b); st.gval["now"] = 0; calls += 1
            for s, rv in e.run_function("mlle_tool_read_bytes", [h, T(b), n], st):
                rv = e.norm(s, rv); now = e.norm(s, s.gval["now"]); hd = s.gval["handed"]; size = s.gval["fsize"]
                if is_int(rv) and rv in (-1, 2**64 - 1):
                    m.ev("reads that return -1")
                    if not eq(e, s, now, 0): e.report(s, "bytes-lost", None, "mlle_tool_read_bytes returns -1 after copying bytes")
                    if not eq(e, s, hd, size): e.report(s, "early-end", None, "mlle_tool_read_bytes returns -1 although bytes remain")
                else:
                    m.ev("reads that return bytes")
                    if not eq(e, s, rv, now): e.report(s, "wrong-count", None, "mlle_tool_read_bytes returns %s for %s bytes copied" % (e.rng(s, rv), e.rng(s, now)))
                    # nothing copied with room and bytes left would never end
                    try:
                        t = s.fork(); e.assume_ge0(t, sub(n, 1)); e.assume_ge0(t, sub(sub(size, hd), 1)); 
                        if not e.ge0(t, sub(now, 1)): e.report(s, "no-progress", None, "mlle_tool_read_bytes can copy nothing although there is room and there are bytes left")
                    except Infeasible: pass
                s.gval["handed"] = e.norm(s, add(hd, now)); s.gval["now"] = 0; s.gval.pop("ubuf", None)
                m.phase = "free"
                t = s.fork(); cell = e.new_obj(t, "stack", 8, "z", ("fccell",)); e.store(t, T(cell), 8, t.gval["h"])
                live = {x for x in t.objs if t.objs[x].kind == "heap" and not t.objs[x].freed and "apibuf" not in t.objs[x].tags}
                for u, _ in e.run_function("mlle_file_contents_free", [T(cell)], t):
                    m.ev("contents freed after reading")
                    left = [x for x in u.objs if u.objs[x].kind == "heap" and not u.objs[x].freed and ("apibuf" not in u.objs[x].tags) and x in live and -1 in u.objs[x].slen]
                    if left: e.report(u, "leak", None, "mlle_file_contents_free leaves the file content allocated")
                m.phase = "read"; nxt.append((s, s.gval["h"]))
        cur = uniq(nxt, ())
    for v in e.violations[nv:]: c.findings.append((v.rule, v.site, v.fn, v.msg, v.trace))
    for k, v in m.events.items(): c.counts[k] = v
    c.count("read calls analysed (histories)", calls); c.count("histories opened", len(opened))
    c.need_count("copies to the caller's buffer"); c.need_count("reads that return -1"); c.need_count("reads that return bytes"); c.need_count("contents freed after reading")
