"""Path-sensitive abstract interpreter over the JSON IR.

Abstract value   int | Term.   Term = (c, ((sym, coef), ...)), an affine expression over opaque symbols.
Object           keyed by the symbol that stands for its base address.
State            current registers, caller frames, objects, bounds per symbol, relational facts
                 (affine terms known >= 0), disequalities, ghost (typestate of the property automaton).
Loops            states are partitioned by their discrete part at loop heads; isomorphic states are merged, and beyond a
                 bound states are joined and widened, so the iteration reaches a fixpoint.
"""
import sys, heapq
from collections import defaultdict
from build import AnalysisError
sys.setrecursionlimit(20000)
DBG=[]
NOTAG = frozenset()
INF = float("inf")

# ---------------------------------------------------------------- terms
def T(sym): return (0, ((sym, 1),))
def is_term(v): return v.__class__ is tuple and len(v) == 2 and v[0].__class__ is int and v[1].__class__ is tuple and (not v[1] or v[1][0].__class__ is tuple)
def is_int(v): return v.__class__ is int
def add(a, b):
    if a.__class__ is int:
        if b.__class__ is int: return a + b
        return (b[0] + a, b[1])
    if b.__class__ is int: return (a[0] + b, a[1])
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k
        if n: d[s] = n
        else: d.pop(s, None)
    c = a[0] + b[0]
    if not d: return c
    return (c, tuple(sorted(d.items())))
def neg(a):
    if a.__class__ is int: return -a
    return (-a[0], tuple((s, -k) for s, k in a[1]))
def sub(a, b): return add(a, neg(b))
def scale(a, k):
    if k == 0: return 0
    if a.__class__ is int: return a * k
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))
def syms_of(v):
    return () if v.__class__ is int else [s for s, _ in v[1]]

def wrap(n, w):
    if w >= 64:
        n &= (1 << 64) - 1
        return n - (1 << 64) if n >> 63 else n
    n &= (1 << w) - 1
    if w == 1: return n
    return n - (1 << w) if n >> (w - 1) else n

# ---------------------------------------------------------------- symbols
class Syms:
    def __init__(self):
        self.name = [None]; self.ptr = [False]; self.lo = [-INF]; self.hi = [INF]; self.tags = [frozenset()]; self.isobj = [False]
        self.memo = {}; self.derived = set()
    def new(self, name, ptr=False, lo=-INF, hi=INF, tags=frozenset(), isobj=False):
        self.name.append(name); self.ptr.append(ptr); self.lo.append(lo); self.hi.append(hi); self.tags.append(frozenset(tags)); self.isobj.append(isobj)
        return len(self.name) - 1
    def memoed(self, key, **kw):
        s = self.memo.get(key)
        if s is None:
            s = self.memo[key] = self.new(key, **kw)
            if any(is_term(p) for p in key): self.derived.add(s)
        return s

class Obj:
    """Immutable-by-convention abstract object (copy on write)."""
    __slots__ = ("kind", "size", "cells", "fill", "tags", "name", "freed", "zero", "slen", "nul")
    def __init__(self, kind, size, fill, name, cells=None, tags=frozenset(), freed=False, zero=(), slen=None, nul=False):
        self.kind = kind; self.size = size; self.cells = cells or {}; self.fill = fill; self.tags = tags
        self.name = name; self.freed = freed; self.zero = zero
        self.slen = slen or {}      # offset -> strlen of the string starting there; -1 -> bytes from the start that were copied in (opt track_init)
        self.nul = nul              # some library call left a NUL-terminated string in it
    def copy(self):
        """copy for a content change: string knowledge is dropped"""
        return Obj(self.kind, self.size, self.fill, self.name, dict(self.cells), self.tags, self.freed, self.zero, {-1: self.slen[-1]} if -1 in self.slen else None, self.nul)
    def same(self):
        return Obj(self.kind, self.size, self.fill, self.name, dict(self.cells), self.tags, self.freed, self.zero, dict(self.slen), self.nul)

class State:
    __slots__ = ("regs", "args", "frames", "objs", "lo", "hi", "rel", "ne", "ghost", "gval", "trace", "depth", "org")
    def __init__(self):
        self.regs = {}; self.args = (); self.frames = (); self.objs = {}; self.lo = {}; self.hi = {}
        self.rel = frozenset(); self.ne = frozenset(); self.ghost = {}; self.gval = {}; self.trace = None; self.depth = 0; self.org = 0
    def fork(self):
        n = State.__new__(State)
        n.regs = dict(self.regs); n.args = self.args; n.frames = self.frames; n.objs = dict(self.objs)
        n.lo = dict(self.lo); n.hi = dict(self.hi); n.rel = self.rel; n.ne = self.ne
        n.ghost = dict(self.ghost); n.gval = dict(self.gval); n.trace = self.trace; n.depth = self.depth; n.org = self.org
        return n

class Infeasible(Exception): pass
class Crash(Exception):
    """the path certainly dereferences NULL: the process ends here"""
def relpath(p):
    k = p.rfind("/src/")
    return p[k + 1:] if k >= 0 else p

class Violation:
    def __init__(self, rule, site, msg, trace): self.rule = rule; self.site = site; self.msg = msg; self.trace = trace

class Fn:
    def __init__(self, j):
        self.name = j["name"]; self.decl = j["decl"]; self.file = j.get("file"); self.line = j.get("line")
        self.nargs = len(j["args"]); self.argty = j["args"]; self.ret = j["ret"]; self.vararg = j["vararg"]
        self.blocks = j.get("blocks", [])
        if not self.decl: self._analyse()
    def succs(self, b):
        t = self.blocks[b][-1]
        if t["op"] == "br": return t["succ"]
        if t["op"] == "switch": return [s for _, s in t["cases"]] + [t["default"]]
        return []
    def ptr_counters(self, h):
        """pointer phis of loop header h that are moved along in the loop"""
        k = ("p", h); c = self._counters.get(k)
        if c is None:
            c = set(); d = {i["id"]: i for b in self.loops[h] for i in self.blocks[b] if "id" in i}
            for i in self.blocks[h]:
                if i["op"] != "phi" or i["ty"][0] != "p": continue
                todo = [v for p, v in i["in"] if p in self.loops[h]]; seen = set(); gep = False; back = False
                while todo:
                    v = todo.pop()
                    if v[0] != "i" or v[1] in seen: continue
                    if v[1] == i["id"]: back = True; continue
                    seen.add(v[1]); x = d.get(v[1])
                    if x is None: continue
                    if x["op"] == "getelementptr": gep = True; todo.append(x["base"])
                    elif x["op"] == "phi": todo += [y for _, y in x["in"]]
                if gep and back: c.add(i["id"])
            self._counters[k] = c
        return c
    def counters(self, h):
        """integer phis of loop header h that are stepped arithmetically in the loop (not enum-like state variables)"""
        c = self._counters.get(h)
        if c is None:
            phis = {i["id"] for i in self.blocks[h] if i["op"] == "phi" and i["ty"][0] == "i" and i["ty"][1] >= 8}
            dep = {p: {p} for p in phis}     # instruction -> phis it is computed from by +,-,casts,phis
            ch = True
            while ch:
                ch = False
                for b in self.loops[h]:
                    for i in self.blocks[b]:
                        if i["op"] in ("add", "sub", "sext", "zext", "trunc", "mul", "shl", "or") or (i["op"] == "phi" and b != h):
                            src = set()
                            for v in (i.get("ops") or [x[1] for x in i.get("in", ())]):
                                if v[0] == "i": src |= dep.get(v[1], set())
                            if not src <= dep.setdefault(i["id"], set()): dep[i["id"]] |= src; ch = True
            dyn = []
            arith = {i["id"] for b in self.loops[h] for i in self.blocks[b] if i["op"] in ("add", "sub", "mul", "shl")}
            c = set()
            for i in self.blocks[h]:
                if i["op"] == "phi" and i["id"] in phis:
                    if any(x in arith and i["id"] in dep.get(x, ()) for x in dep): c.add(i["id"])
            # loops bounded by a small constant are unrolled instead of joined
            if c:
                der = {x for x in dep if dep[x] & c}
                inloop = {i["id"] for b in self.loops[h] for i in self.blocks[b] if "id" in i}
                for b in self.loops[h]:
                    for i in self.blocks[b]:
                        if i["op"] == "icmp":
                            x, y = i["ops"]
                            for p, q in ((x, y), (y, x)):
                                if p[0] == "i" and p[1] in der and q[0] == "c" and 2 <= q[1] <= 64 and i["pred"] not in ("eq", "ne"):
                                    c = c - dep[p[1]]
                                elif p[0] == "i" and p[1] in der and q[0] != "c" and not (q[0] == "i" and q[1] in inloop):
                                    dyn.append((frozenset(dep[p[1]]), q))
                # counters that start at a constant and step by one towards a constant close to it (either direction, any comparison)
                defs = {i["id"]: i for b in self.loops[h] for i in self.blocks[b] if "id" in i}
                for i in self.blocks[h]:
                    if i["op"] != "phi" or i["id"] not in c: continue
                    init = [v for p, v in i["in"] if p not in self.loops[h]]; nxt = [v for p, v in i["in"] if p in self.loops[h]]
                    if not init or not nxt or any(v[0] != "c" for v in init): continue
                    def step(v):
                        d = defs.get(v[1]) if v[0] == "i" else None
                        if d is None or d["op"] not in ("add", "sub"): return None
                        x, y = d["ops"]
                        if x[0] == "c": x, y = y, x
                        if y[0] != "c" or x[:2] != ["i", i["id"]] and tuple(x[:2]) != ("i", i["id"]): return None
                        k = wrap(y[1], y[2]); return -k if d["op"] == "sub" else k
                    ks = {step(v) for v in nxt}
                    if len(ks) != 1 or ks & {None} or abs(list(ks)[0]) != 1: continue
                    k = list(ks)[0]; a = [wrap(v[1], v[2]) for v in init]
                    for b in self.loops[h]:
                        for q in self.blocks[b]:
                            if q["op"] == "icmp":
                                for x, y in (q["ops"], q["ops"][::-1]):
                                    if x[0] == "i" and x[1] in dep and i["id"] in dep[x[1]] | {x[1]} and y[0] == "c" and all(0 <= (wrap(y[1], y[2]) - z) * k <= 64 for z in a):
                                        c = c - {i["id"]}
            # phis that remember a counter value
            ch = bool(c)
            while ch:
                ch = False
                for i in self.blocks[h]:
                    if i["op"] == "phi" and i["id"] in phis and i["id"] not in c:
                        if any(v[0] == "i" and dep.get(v[1], set()) & c for _, v in i["in"]): c.add(i["id"]); ch = True
            self._counters[h] = c; self.dynb[h] = dyn
        return c
    def _analyse(self):
        self._counters = {}; self.dynb = {}   # dynb: loop bounds that are not constants, but may be in a given call
        n = len(self.blocks); seen = set(); order = []
        stack = [(0, iter(self.succs(0)))]; seen.add(0); onstack = {0}; self.headers = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); onstack.add(s); stack.append((s, iter(self.succs(s)))); break
                elif s in onstack: self.headers.add(s)
            else:
                stack.pop(); onstack.discard(b); order.append(b)
        order.reverse(); self.rpo = {b: i for i, b in enumerate(order)}
        # loop bodies first: use RPO but keep loop blocks ahead of exits
        preds = defaultdict(list)
        for b in order:
            for s in self.succs(b): preds[s].append(b)
        self.preds = preds
        # natural loops -> priority so that inner loop stabilises before its exit is processed
        self.loopdepth = defaultdict(int); self.loops = {}
        for h in self.headers:
            body = {h}; work = [p for p in preds[h] if self.rpo[p] >= self.rpo[h]]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work += preds[x]
            self.loops[h] = body
            for x in body: self.loopdepth[x] += 1
        # liveness
        use = {}; df = {}; phiuse = defaultdict(set)
        def rv(v, out):
            if isinstance(v, list) and v and v[0] == "i": out.add(v[1])
        for b in order:
            u = set(); d = set()
            for i in self.blocks[b]:
                if i["op"] == "phi":
                    for p, v in i["in"]: rv(v, phiuse[(p, b)])
                    d.add(i["id"]); continue
                o = set()
                for k in ("base", "cond", "callee", "n"):
                    if k in i: rv(i[k], o)
                for v in i.get("ops", ()): rv(v, o)
                for v, _ in i.get("idx", ()): rv(v, o)
                u |= (o - d); d.add(i["id"])
            use[b] = u; df[b] = d
        live = {b: set() for b in order}; changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in self.succs(b):
                    out |= live[s]; out |= phiuse[(b, s)]
                n2 = use[b] | (out - df[b])
                if n2 != live[b]: live[b] = n2; changed = True
        self.livein = {b: frozenset(live[b]) for b in order}
        # order: topological by rpo but with loop exits after loop bodies
        self.prio = {}
        for b in order: self.prio[b] = self.rpo[b]
        # a block outside loop L whose rpo is inside L's rpo span is pushed after the span
        for h, body in sorted(self.loops.items(), key=lambda kv: len(kv[1])):
            m = max(self.prio[x] for x in body)
            lo = self.prio[h]
            for b in order:
                if b not in body and lo < self.prio[b] <= m: self.prio[b] = m + (self.prio[b] + 1) / (2.0 * (n + 1))

class Engine:
    MAXSTEPS = 6_000_000
    def __init__(self, mod, monitor=None, models=None, opts=None):
        self.S = Syms(); self.mod = mod; self.monitor = monitor
        self.fns = {f["name"]: Fn(f) for f in mod["functions"]}
        self.globals = {g["name"]: g for g in mod["globals"]}
        self.gsym = {}; self.fnsym = {}
        self.opts = dict(loop_states=24, rec_depth=1, alloc_fail=False, memo=True, exit_join=4000, merge=1, merge_block=4, merge_max=12, max_parts=200)
        if opts: self.opts.update(opts)
        self._relidx = {}
        self.models = {}
        if models:
            for m in models: self.models.update(m)
        self.violations = []; self._vseen = set()
        self.steps = 0; self.nstates = 0; self.fn_seen = set(); self.blocks_seen = set(); self.calls_seen = set(); self.ext_calls = defaultdict(int)
        self.unmodelled = set(); self.fsteps = defaultdict(int)
        self.callstack = []; self.norg = 0; self._closure = {}; self._memo = {}; self.memo_hit = self.memo_miss = 0
        self.tagcount = defaultdict(int)
        for name, g in self.globals.items():
            self.gsym[name] = self.S.new(("glob", name), ptr=True, lo=4096, isobj=True)
        for name in self.fns:
            self.fnsym[name] = self.S.new(("fn", name), ptr=True, lo=4096, isobj=True)
        self.readonly = self._readonly_globals()
        self.sym2fn = {s: n for n, s in self.fnsym.items()}
        self.sym2glob = {s: n for n, s in self.gsym.items()}
        self._gconst = {}
        self.lumped = {self.gsym[n] for n in self.opts.get("lump", ()) if n in self.gsym}     # globals not used to keep states apart
        self.strconst = {self.gsym[n] for n, g in self.globals.items() if g["const"] and g.get("bytes") is not None and n.startswith(".str")}

    def _readonly_globals(self):
        """internal globals whose address is only ever used to load from"""
        esc = set()
        def gl(v, der):
            if v[0] == "g": return v[1]
            if v[0] == "i": return der.get(v[1])
            return None
        for f in self.fns.values():
            if f.decl: continue
            der = {}; ch = True
            while ch:
                ch = False
                for blk in f.blocks:
                    for i in blk:
                        if i["op"] == "getelementptr" and i["id"] not in der:
                            g = gl(i["base"], der)
                            if g: der[i["id"]] = g; ch = True
            for blk in f.blocks:
                for i in blk:
                    if i["op"] == "getelementptr": continue
                    ops = list(i.get("ops", ())) + [v for _, v in i.get("in", ())]
                    if i["op"] == "load": continue
                    for v in ops:
                        g = gl(v, der)
                        if g: esc.add(g)
        for g in self.globals.values():
            for c in g.get("cells", ()):
                v = c[2]
                if v[0] == "g": esc.add(v[1])
        return {n for n, g in self.globals.items() if not g["decl"] and g.get("internal", True) and n not in esc}
    # ------------------------------------------------------------ facts
    def rng(self, st, v):
        if v.__class__ is int: return v, v
        lo = hi = v[0]; S = self.S
        for s, k in v[1]:
            l = st.lo.get(s, S.lo[s]); h = st.hi.get(s, S.hi[s])
            if k > 0: lo += l * k; hi += h * k
            else: lo += h * k; hi += l * k
        return lo, hi
    def norm(self, st, v):
        if v.__class__ is int: return v
        S = self.S; r = None
        for s, k in v[1]:
            l = st.lo.get(s, S.lo[s])
            if l == st.hi.get(s, S.hi[s]):
                r = add(add(v if r is None else r, (0, ((s, -k),))), int(l) * k)
        return v if r is None else r
    def ge0(self, st, t, depth=3):
        """entailed: t >= 0"""
        t = self.norm(st, t)
        if t.__class__ is int: return t >= 0
        if self.rng(st, t)[0] >= 0: return True
        if depth and st.rel:
            rel = st.rel
            idx = self._relidx.get(rel)
            if idx is None:
                idx = {}
                for f in rel:
                    for s, k in f[1]: idx.setdefault((s, k > 0), []).append(f)
                if len(self._relidx) > 20000: self._relidx.clear()
                self._relidx[rel] = idx
            tried = None
            for s, k in t[1]:
                # use a fact only if it shares a symbol with the same sign
                fs = idx.get((s, k > 0))
                if fs:
                    for f in fs:
                        if tried is None: tried = {f}
                        elif f in tried: continue
                        else: tried.add(f)
                        if self.ge0(st, sub(t, f), depth - 1): return True
        return False
    def assume_ge0(self, st, t):
        """refine st with t >= 0; raise Infeasible when contradictory"""
        t = self.norm(st, t)
        if t.__class__ is int:
            if t < 0: raise Infeasible
            return
        lo, hi = self.rng(st, t)
        if hi < 0: raise Infeasible
        if lo >= 0: return
        S = self.S
        if len(t[1]) > 1:
            if self.ge0(st, add(neg(t), -1), 2): raise Infeasible
            if t not in st.rel: st.rel = st.rel | {t}
        # interval propagation
        for s, k in t[1]:
            rest = (t[0], tuple(x for x in t[1] if x[0] != s))
            rh = self.rng(st, rest)[1]
            if rh == INF: continue
            if k > 0:
                nb = -(rh // k) if True else 0      # k*s >= -rh  -> s >= ceil(-rh/k)
                if nb > st.lo.get(s, S.lo[s]):
                    st.lo[s] = int(nb)
            else:
                nb = rh // (-k)                      # -|k| s + rh >= 0 -> s <= floor(rh/|k|)
                if nb < st.hi.get(s, S.hi[s]): st.hi[s] = int(nb)
            l = st.lo.get(s, S.lo[s]); h = st.hi.get(s, S.hi[s])
            self._shave(st, s)
            if st.lo.get(s, S.lo[s]) > st.hi.get(s, S.hi[s]): raise Infeasible
    def _shave(self, st, s):
        S = self.S; ch = True
        while ch and st.ne:
            ch = False
            l = st.lo.get(s, S.lo[s]); h = st.hi.get(s, S.hi[s])
            for f in st.ne:
                if len(f[1]) == 1 and f[1][0][0] == s:
                    k = f[1][0][1]; v = -f[0] / k
                    if v == l: st.lo[s] = int(l) + 1; ch = True
                    elif v == h: st.hi[s] = int(h) - 1; ch = True
    def assume_eq0(self, st, t):
        t = self.norm(st, t)
        if t.__class__ is int:
            if t != 0: raise Infeasible
            return
        if self.is_ne0(st, t): raise Infeasible
        self.assume_ge0(st, t); self.assume_ge0(st, neg(t))
    def is_ne0(self, st, t):
        t = self.norm(st, t)
        if t.__class__ is int: return t != 0
        lo, hi = self.rng(st, t)
        if lo > 0 or hi < 0: return True
        if t in st.ne or neg(t) in st.ne: return True
        # two distinct live objects never have equal addresses
        bases = [(s, k) for s, k in t[1] if self.S.isobj[s]]
        if len(bases) == 2 and bases[0][1] * bases[1][1] == -1: return True
        if len(bases) == 1 and len(t[1]) == 2 and bases[0][1] in (1, -1):
            pass
        if st.rel and (self.ge0(st, add(t, -1), 2) or self.ge0(st, add(neg(t), -1), 2)): return True
        return False
    def assume_ne0(self, st, t):
        t = self.norm(st, t)
        if t.__class__ is int:
            if t == 0: raise Infeasible
            return
        lo, hi = self.rng(st, t)
        if lo > 0 or hi < 0: return
        if st.rel and self.ge0(st, t, 2) and self.ge0(st, neg(t), 2): raise Infeasible
        st.ne = st.ne | {t}
        if len(t[1]) == 1:
            s = t[1][0][0]; self._shave(st, s)
            if st.lo.get(s, self.S.lo[s]) > st.hi.get(s, self.S.hi[s]): raise Infeasible
        elif self.ge0(st, t, 2): self.assume_ge0(st, add(t, -1))
        elif self.ge0(st, neg(t), 2): self.assume_ge0(st, add(neg(t), -1))

    def split(self, st, conds):
        """conds: list of (label, [(kind, term)...]); returns feasible [(state,label)]"""
        out = []
        for lab, cs in conds:
            n = st.fork()
            try:
                for kind, t in cs:
                    if kind == "ge": self.assume_ge0(n, t)
                    elif kind == "eq": self.assume_eq0(n, t)
                    else: self.assume_ne0(n, t)
            except Infeasible: continue
            out.append((n, lab))
        return out

    # ------------------------------------------------------------ compare
    def compare(self, st, pred, a, b, w=64):
        """-> list of (state, 0/1)"""
        a = self.norm(st, a); b = self.norm(st, b)
        d = sub(a, b)
        if pred in ("eq", "ne"):
            if d.__class__ is int: r = d == 0
            elif self.is_ne0(st, d): r = False
            elif st.rel and self.ge0(st, d, 2) and self.ge0(st, neg(d), 2): r = True
            else:
                res = self.split(st, [(1 if pred == "eq" else 0, [("eq", d)]), (0 if pred == "eq" else 1, [("ne", d)])])
                return res
            return [(st, int(r == (pred == "eq")))]
        if pred[0] == "u":
            # unsigned: negative numbers are huge
            la, ha = self.rng(st, a); lb, hb = self.rng(st, b)
            an = la >= 0 or self.ge0(st, a, 2); bn = lb >= 0 or self.ge0(st, b, 2)
            if is_int(a) and a < 0 and w <= 64: a = a + (1 << w); an = True; d = sub(a, b)
            if is_int(b) and b < 0 and w <= 64: b = b + (1 << w); bn = True; d = sub(a, b)
            if not (an and bn):
                # flip to less-than
                p = pred
                if p in ("ugt", "uge"): x, y, xn, yn = b, a, bn, an; p = "ult" if p == "ugt" else "ule"
                else: x, y, xn, yn = a, b, an, bn
                # x <u y
                strict = p == "ult"
                dd = sub(y, x)
                if yn:   # y>=0, x maybe negative: true iff 0<=x<y
                    t = [("ge", x), ("ge", add(dd, -1 if strict else 0))]
                    res = self.split(st, [(1, t)])
                    # false: x>=y (x>=0) or x<0
                    f1 = [("ge", x), ("ge", add(neg(dd), 0 if strict else -1))]
                    f2 = [("ge", add(neg(x), -1))]
                    res += self.split(st, [(0, f1), (0, f2)])
                    return res
                if xn:   # x>=0, y maybe negative: true iff y<0 or x<y
                    res = self.split(st, [(1, [("ge", add(neg(y), -1))]), (1, [("ge", y), ("ge", add(dd, -1 if strict else 0))]),
                                          (0, [("ge", y), ("ge", add(neg(dd), 0 if strict else -1))])])
                    return res
                return self.split(st, [(1, []), (0, [])])
            pred = "s" + pred[1:]
        if pred in ("sgt", "sge"): d = neg(d); pred = "slt" if pred == "sgt" else "sle"
        # now: a<b  <=> -d-1 >= 0 ; a<=b <=> -d >= 0
        t = add(neg(d), -1) if pred == "slt" else neg(d)
        nt = add(neg(t), -1)
        if self.ge0(st, t): return [(st, 1)]
        if self.ge0(st, nt): return [(st, 0)]
        return self.split(st, [(1, [("ge", t)]), (0, [("ge", nt)])])

    def compare_const(self, st, v, c):
        """True: v == c, False: v != c, None: unknown"""
        d = self.norm(st, add(v, -c))
        if d.__class__ is int: return d == 0
        if self.is_ne0(st, d): return False
        return None

    # ------------------------------------------------------------ objects
    def fresh(self, name, **kw): return T(self.S.new(name, **kw))
    def new_obj(self, st, kind, size, fill, name, tags=frozenset()):
        s = self.S.new(("obj",) + (name if isinstance(name, tuple) else (name,)), ptr=True, lo=4096, isobj=True)
        st.objs[s] = Obj(kind, size, fill, name, tags=frozenset(tags))
        return s
    def base_of(self, st, p):
        """pointer value -> (base symbol or None, offset value)"""
        p = self.norm(st, p)
        if p.__class__ is int: return None, p
        S = self.S; cand = None
        for s, k in p[1]:
            if k == 1 and S.isobj[s]:
                if cand is not None and S.isobj[cand]: return None, p
                cand = s
            elif k == 1 and S.ptr[s] and (cand is None): cand = s
        if cand is None: return None, p
        return cand, sub(p, T(cand))
    def get_obj(self, st, s):
        o = st.objs.get(s)
        if o is None:
            g = self.sym2glob.get(s)
            if g is not None:
                o = self.glob_obj(g)
                if o.kind != "const": st.objs[s] = o
                return o
            if s in self.sym2fn: return Obj("fn", None, "?", self.sym2fn[s])
            o = Obj("ext", None, "?", self.S.name[s], tags=self.S.tags[s])
            st.objs[s] = o
        return o
    def glob_obj(self, name):
        o = self._gconst.get(name)
        if o is None:
            g = self.globals[name]
            cells = {}
            for off, sz, v in g["cells"]:
                cells[off] = (sz, self.const(v))
            o = Obj("const" if g["const"] or name in self.readonly else "global", g["size"] if g["size"] >= 0 else None, "?" if g["decl"] else "z", name, cells)
            if o.kind == "global" and self.opts.get("any_globals"): o.cells = {}; o.fill = "?"   # any earlier calls
            self._gconst[name] = o
        return o
    def const(self, v):
        k = v[0]
        if k == "c": return wrap(v[1], v[2])
        if k == "g":
            s = self.gsym.get(v[1]) or self.fnsym.get(v[1])
            return (v[2], ((s, 1),))
        return T(self.S.memoed(("undefc", str(v))))
    def cstr(self, st, p):
        """constant C string at p, or None"""
        b, off = self.base_of(st, p)
        if b is None or not is_int(off): return None
        g = self.sym2glob.get(b)
        if g is not None and self.globals[g]["const"] and "bytes" in self.globals[g]:
            bs = bytes.fromhex(self.globals[g]["bytes"])[off:]
            if 0 in bs: return bs[:bs.index(0)].decode("latin1")
            return None
        o = st.objs.get(b)
        if o is not None and o.kind != "ext":
            out = []
            for i in range(off, off + 512):
                c = o.cells.get(i)
                if c is None:
                    if (o.fill == "z" and not any(True for k in o.cells if not is_int(k))) or any(z[0] <= i < z[1] for z in o.zero):
                        v = 0
                    else: return None
                elif c[0] != 1 or not is_int(self.norm(st, c[1])): return None
                else: v = self.norm(st, c[1])
                if v == 0: return "".join(out)
                out.append(chr(v & 255))
        return None
    def disjoint(self, st, o1, s1, o2, s2):
        """[o1,o1+s1) and [o2,o2+s2) certainly disjoint"""
        if is_int(o1) and is_int(o2) and is_int(s1) and is_int(s2):
            return o1 + s1 <= o2 or o2 + s2 <= o1
        return self.ge0(st, sub(o2, add(o1, s1))) or self.ge0(st, sub(o1, add(o2, s2)))
    def load(self, st, p, size, ty, inst):
        b, off = self.base_of(st, p)
        ptr = ty[0] == "p"
        if b is None:
            return self.fresh(("ld?", self.site(inst)), ptr=ptr)
        off = self.norm(st, off)
        o = self.get_obj(st, b)
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size: return self.norm(st, c[1])
            v = self.norm(st, c[1])
            if is_int(v) and size < c[0]: return wrap(v, size * 8)
        w = size * 8
        if is_int(off):
            if c is None and (o.fill == "z" or any(z[0] <= off and off + size <= z[1] for z in o.zero)):
                # zero unless some cell may overlap
                for k, (sz, _) in o.cells.items():
                    if not self.disjoint(st, k, sz, off, size): break
                else: return 0
            if size > 1 and c is not None or any(is_int(k) and k < off + size and off < k + v[0] for k, v in o.cells.items()):
                # assemble little-endian constants
                bs = []
                for i in range(off, off + size):
                    x = None
                    for k, (sz, cv) in o.cells.items():
                        if is_int(k) and k <= i < k + sz:
                            cv = self.norm(st, cv)
                            if is_int(cv): x = (cv >> (8 * (i - k))) & 255
                            break
                    else:
                        if o.fill == "z": x = 0
                    if x is None: bs = None; break
                    bs.append(x)
                if bs is not None:
                    return wrap(sum(x << (8 * i) for i, x in enumerate(bs)), w)
        kw = {}
        if size == 1 and not ptr: kw = dict(lo=-128, hi=127)
        elif size == 4: kw = dict(lo=-2**31, hi=2**31 - 1)
        if o.kind == "const":
            return T(self.S.memoed(("ldc", b, off, size), ptr=ptr, **kw))
        tags = o.tags
        if tags and any(x[:2] == "t|" for x in tags): tags = frozenset(x for x in tags if x[:2] != "t|")     # what a string is does not pass to its bytes
        nm = ("uninit", o.name, off if is_int(off) else "*") if o.fill == "u" else ("ld", o.name, off if is_int(off) else "*")
        v = self.fresh(nm, ptr=ptr, tags=tags, **kw)
        n = o.same(); n.cells[off] = (size, v); st.objs[b] = n
        return v
    def store(self, st, p, size, v, inst=None):
        b, off = self.base_of(st, p)
        if b is None: return
        o = self.get_obj(st, b)
        if o.kind in ("const", "fn"): return
        off = self.norm(st, off)
        n = o.copy()
        for k in list(n.cells):
            if k == off: del n.cells[k]; continue
            if not self.disjoint(st, k, n.cells[k][0], off, size): del n.cells[k]
        if not is_int(off):
            n.zero = tuple(z for z in n.zero if self.disjoint(st, z[0], z[1] - z[0], off, size))
            if n.fill == "z": n.fill = "?"
        n.cells[off] = (size, v)
        if n.nul or v == 0:
            last = o.size is not None and not is_int(o.size) and self.norm(st, sub(o.size, add(off, size))) == 0
            if v == 0: n.nul = "last" if last or n.nul == "last" else n.nul
            elif n.nul == "last" and (o.size is None or not self.ge0(st, sub(o.size, add(off, size + 1)))): n.nul = False
        if v.__class__ is not int:
            for s, _ in v[1]:
                t = self.S.tags[s]
                if t: n.tags = n.tags | t
        st.objs[b] = n
    def havoc_range(self, st, b, off, size, tags=frozenset(), fill="?"):
        """object b, [off, off+size) gets unknown content (size may be None: to the end)"""
        o = self.get_obj(st, b)
        if o.kind in ("const", "fn"): return
        n = o.copy()
        for k in list(n.cells):
            if size is not None:
                if self.disjoint(st, k, n.cells[k][0], off, size): continue
            elif self.ge0(st, sub(off, add(k, n.cells[k][0]))): continue
            del n.cells[k]
        if size is None: n.zero = tuple(z for z in n.zero if self.ge0(st, sub(off, z[1])))
        else:
            nz = []
            for z in n.zero:
                if self.disjoint(st, z[0], z[1] - z[0], off, size): nz.append(z)
            n.zero = tuple(nz)
        if n.fill == "z" and n.nul in (None, False) and n.size is not None and size is not None and not any(not is_int(k) for k in n.cells) \
           and self.ge0(st, sub(sub(n.size, add(off, size)), 1)) and all(self.ge0(st, sub(sub(n.size, 1), add(k, n.cells[k][0]))) for k in n.cells): n.nul = "last"
        if n.fill in ("z", "u"): n.fill = fill
        if n.nul == "last": n.nul = "last" if size is not None and n.size is not None and self.ge0(st, sub(sub(n.size, add(off, size)), 1)) else False
        elif n.nul: n.nul = False
        n.tags = n.tags | frozenset(tags)
        st.objs[b] = n
    def memset(self, st, p, c, n_, inst=None):
        b, off = self.base_of(st, p)
        if b is None: return
        o = self.get_obj(st, b)
        if o.kind in ("const", "fn"): return
        off = self.norm(st, off); n_ = self.norm(st, n_)
        full = is_int(off) and off == 0 and o.size is not None and self.ge0(st, sub(n_, o.size))
        if full:
            st.objs[b] = Obj(o.kind, o.size, "z" if c == 0 else "?", o.name, {}, frozenset() if is_int(c) else o.tags, o.freed)
            return
        self.havoc_range(st, b, off, n_, fill=o.fill if o.fill == "z" and c == 0 else "?")
        if c == 0 and is_int(off) and is_int(n_) and n_ > 0:
            m = st.objs[b].copy(); m.zero = m.zero + ((off, off + n_),); st.objs[b] = m
        elif c == 0 and is_int(off) and not is_int(n_):
            pass
    def memcpy(self, st, d, s, n_, inst=None):
        bd, od = self.base_of(st, d); bs, os_ = self.base_of(st, s)
        if bd is None: return
        n_ = self.norm(st, n_)
        so = self.get_obj(st, bs) if bs is not None else None
        tags = so.tags if so is not None else frozenset()
        cells = []
        if so is not None and is_int(n_) and n_ <= 4096:
            for k, (sz, v) in so.cells.items():
                rel = sub(k, os_)
                if is_int(rel) and 0 <= rel and rel + sz <= n_: cells.append((rel, sz, v))
            g = self.sym2glob.get(bs)
        if is_int(n_) and n_ == 0: return
        zero_src = so is not None and so.fill == "z" and is_int(n_) and is_int(os_)
        od = self.norm(st, od); do = self.get_obj(st, bd); ini = None
        if self.opts.get("track_init") and do.kind == "heap":
            if od == 0 and (do.fill == "u" or -1 in do.slen): ini = n_
            elif -1 in do.slen and self.ge0(st, sub(do.slen[-1], od)): ini = add(od, n_)
        self.havoc_range(st, bd, od, n_, tags)
        if ini is not None:
            m = st.objs[bd].same(); m.slen[-1] = self.norm(st, ini); st.objs[bd] = m
        o = st.objs.get(bd)
        if o is None or o.kind in ("const", "fn"): return
        if cells or zero_src:
            m = o.copy()
            if zero_src and is_int(od): m.zero = m.zero + ((od, od + n_),)
            for rel, sz, v in cells: m.cells[add(od, rel)] = (sz, v)
            st.objs[bd] = m
    def add_tags(self, st, p, tags):
        b, _ = self.base_of(st, p)
        if b is None: return
        o = self.get_obj(st, b)
        if o.kind in ("const", "fn"): return
        n = o.same(); n.tags = n.tags | frozenset(tags); st.objs[b] = n
    def tags_of(self, st, p):
        b, _ = self.base_of(st, p)
        if b is None: return frozenset()
        return self.get_obj(st, b).tags

    # ------------------------------------------------------------ reporting
    def site(self, inst):
        if inst is None: return "?"
        l = inst.get("loc")
        if l: return "%s:%d" % (relpath(l[0]), l[1])
        return "%s:?" % (self.callstack[-1] if self.callstack else "?")
    def note(self, st, inst, txt):
        st.trace = (st.trace, self.site(inst), txt)
    def report(self, st, rule, inst, msg, key=None):
        site = self.site(inst) if not isinstance(inst, str) else inst
        k = key or (rule, site, msg)
        if k in self._vseen: return
        self._vseen.add(k)
        tr = []; t = st.trace
        def seg(x):
            for a, b in reversed(x):
                if a is None: seg(b)
                else: tr.append("%s  %s" % (a, b))
        while t is not None:
            if t[1] is None: seg(t[2])
            else: tr.append("%s  %s" % (t[1], t[2]))
            t = t[0]
        tr.reverse()
        v = Violation(rule, site, msg, tr); v.stack = list(self.callstack); v.fn = self.callstack[-1] if self.callstack else ""
        self.violations.append(v)

    # ------------------------------------------------------------ canonical form
    def canon(self, st, regs_live=None, extra=()):
        m = {}; out = []; S = self.S; todo = []
        norm = self.norm; lo = st.lo; hi = st.hi
        def val(v):
            v = norm(st, v)
            if v.__class__ is int: return v
            l = [v[0]]
            for s, k in v[1]:
                i = m.get(s)
                if i is None:
                    if s in self.sym2glob or s in self.sym2fn: i = -s
                    else:
                        i = len(m) + 1
                    m[s] = i; todo.append(s)
                l.append((i, k))
            return tuple(l)
        if regs_live is None: rl = sorted(st.regs.items())
        else: rl = [(r, st.regs[r]) for r in sorted(regs_live) if r in st.regs]
        out.append(tuple((r, val(v)) for r, v in rl))
        out.append(tuple(val(v) for v in st.args))
        for fr, fa in st.frames:
            out.append(tuple((r, val(v)) for r, v in sorted(fr.items())))
            out.append(tuple(val(v) for v in fa))
        out.append(tuple(sorted((k, v) for k, v in st.ghost.items())))
        out.append(tuple((k, val(v)) for k, v in sorted(st.gval.items())))
        out.append(tuple(val(v) for v in extra))
        # globals written so far are roots
        for s in sorted(k for k in st.objs if k in self.sym2glob):
            if s not in m: m[s] = -s; todo.append(s)
        i = 0
        while i < len(todo):
            s = todo[i]; i += 1
            o = st.objs.get(s)
            info = (m[s], S.name[s][0] if S.isobj[s] else 0, lo.get(s, S.lo[s]), hi.get(s, S.hi[s]), S.tags[s])
            out.append(info)
            if o is not None:
                ce = tuple((val(k), sz, val(v)) for k, (sz, v) in sorted(o.cells.items(), key=lambda kv: (kv[0].__class__ is not int, kv[0])))
                out.append((o.kind, o.name, None if o.size is None else val(o.size), o.fill, o.tags, o.freed, o.zero, ce, o.nul,
                            tuple((val(k), val(v)) for k, v in sorted(o.slen.items(), key=lambda kv: (kv[0].__class__ is not int, kv[0])))))
        def ft(t):
            return (t[0],) + tuple(sorted((m[s], k) for s, k in t[1]))
        rel = []
        if st.rel:
            dead = {s for t in st.rel for s, _ in t[1] if s not in m}
            for s in sorted(dead):          # project dead symbols out, keeping what pairs of facts say about the others
                up = [t for t in st.rel if dict(t[1]).get(s) == 1]; dn = [t for t in st.rel if dict(t[1]).get(s) == -1]
                new = set()
                if up and dn and len(up) * len(dn) <= 16:
                    for a in up:
                        for b in dn:
                            t = add(a, b)
                            if t.__class__ is int or len(t[1]) < 2 or len(t[1]) > 4 or self.rng(st, t)[0] >= 0: continue
                            new.add(t)
                st.rel = frozenset(t for t in st.rel if not any(q == s for q, _ in t[1])) | new
        if len(st.rel) > 1:             # of facts over the same combination only the strongest
            best = {}
            for t in st.rel:
                if t[1] not in best or t[0] < best[t[1]]: best[t[1]] = t[0]
            if len(best) < len(st.rel): st.rel = frozenset((c, x) for x, c in best.items())
        for t in st.rel:
            if all(s in m for s, _ in t[1]): rel.append(ft(t))
        nes = []
        for t in st.ne:
            if all(s in m for s, _ in t[1]): nes.append(ft(t))
        out.append(tuple(sorted(set(rel)))); out.append(tuple(sorted(set(nes))))
        # drop what is unreachable from the state itself
        for k in [k for k in st.objs if k not in m]: del st.objs[k]
        # (a symbol known to be one constant does not appear in m, its value must not be forgotten)
        if len(lo) > len(m) or len(hi) > len(m):
            st.lo = {k: v for k, v in lo.items() if k in m or v == hi.get(k, S.hi[k])}
            st.hi = {k: v for k, v in hi.items() if k in m or v == lo.get(k, S.lo[k])}
        if st.rel: st.rel = frozenset(t for t in st.rel if all(s in m for s, _ in t[1]))
        if st.ne: st.ne = frozenset(t for t in st.ne if all(s in m for s, _ in t[1]))
        self._m = m
        return tuple(out)

    # ------------------------------------------------------------ join / widen
    def shape(self, st, regs_live):
        """partition key for joining"""
        return tuple(sorted(st.ghost.items()))
    def coarse(self, st, regs_live, extra=(), numeric=frozenset(), text=True, skip=None):
        """partition key for merging: ghost, points-to structure, nullness, small constants; numbers otherwise by sign"""
        m = {}; out = []; S = self.S; todo = []
        def val(v, sz=4):
            v = self.norm(st, v)
            if v.__class__ is int:
                if sz == 8 and v > 0: return ("+", False, NOTAG)
                return v if -4096 < v < 4096 else "k"
            b, off = self.base_of(st, v)
            if b in self.strconst and sz == 8: return "str"
            if b is not None and (S.isobj[b] or b in st.objs):
                i = m.get(b)
                if i is None:
                    i = -b if (b in self.sym2glob or b in self.sym2fn) else len(m) + 1
                    m[b] = i; todo.append(b)
                return ("p", i, off if is_int(off) else "*")
            lo, hi = self.rng(st, v)
            z = "+" if lo > 0 else "-" if hi < 0 else "0+" if lo >= 0 else "n" if self.is_ne0(st, v) else "?"
            tg = S.tags[v[1][0][0]] if len(v[1]) == 1 else frozenset()
            return (z, b is not None, tg)
        if regs_live is None: rl = ()
        else: rl = [(r, st.regs[r]) for r in sorted(regs_live) if r in st.regs]
        def rval(r, v):
            x = val(v)
            if r in numeric:
                if is_int(x): return "#"
                if x.__class__ is tuple and x[0] == "p": return ("p", x[1], "#")
            return x
        out.append(tuple((r, rval(r, v)) for r, v in rl))
        out.append(tuple(sorted(st.ghost.items())))
        out.append(tuple((k, val(v)) for k, v in sorted(st.gval.items())))
        out.append(tuple(val(v) for v in extra))
        for a in st.args: val(a)
        for fr, fa in st.frames:
            for r in sorted(fr): val(fr[r])
            for v in fa: val(v)
        for s in sorted(k for k in st.objs if k in self.sym2glob):
            if s not in m: m[s] = -s; todo.append(s)
        i = 0
        while i < len(todo):
            s = todo[i]; i += 1
            if s in self.lumped: continue
            o = st.objs.get(s)
            if o is None: out.append((m[s],)); continue
            if o.freed: out.append((m[s], "freed")); continue
            if skip is not None and o.kind == "stack" and S.name[s][-1] == skip:
                c = o.cells.get(0) if is_int(o.size) and o.size <= 8 else None       # of the own frame only small scalars (a protocol state, a flag)
                c = None if c is None else self.norm(st, c[1])
                out.append((m[s], o.name, c if c.__class__ is int and 0 <= c < 16 else None)); continue
            ce = tuple((k if is_int(k) else "*", sz, val(v, sz)) for k, (sz, v) in sorted(o.cells.items(), key=lambda kv: (kv[0].__class__ is not int, kv[0])) if sz > 1 and not (o.fill == "z" and v == 0))
            if o.kind == "heap" and len(ce) > 2 and self.opts.get("lump_arrays") and all(x[1] == 8 for x in ce): ce = len(ce)
            # the leading literal text of a buffer is a discrete fact
            tg = o.tags if not o.tags or "dirent" in o.tags else frozenset(x for x in o.tags if x[:2] != "t|")
            out.append((m[s], o.kind, o.name, tg, o.freed, o.nul, o.size is None, ce, self.prefix_text(st, o) if text and not o.freed else None))
        return tuple(out)
    def prefix_text(self, st, o, n=24):
        t = []
        for k in range(n):
            c = o.cells.get(k)
            if c is None or c[0] != 1: break
            v = self.norm(st, c[1])
            if not is_int(v): break
            t.append(v)
            if v == 0: break
        return tuple(t)
    def merge(self, items, live, tag, own=None):
        """items: [(state, retval or None)]; join those with equal coarse keys; the key gets coarser when many groups remain"""
        if any(s.org != items[0][0].org for s, _ in items):
            by = {}
            for it in items: by.setdefault(it[0].org, []).append(it)
            return [x for l in by.values() for x in self.merge(l, live, tag, own)]
        if len(items) <= self.opts["merge_block"]: return items
        r = self._merge(items, live, tag, True, None)
        if len(r) > self.opts["merge_max"]: r = self._merge(r, live, tag, False, None)
        if own is not None and len(r) > 3 * self.opts["merge_max"]: r = self._merge(r, live, tag, False, own)
        return r
    def _merge_exit(self, items, live, tag):
        r = self._merge(items, live, tag, True, None)
        if len(r) > self.opts["merge_max"]: r = self._merge(r, live, tag, False, None)
        return r
    def _merge(self, items, live, tag, text, skip):
        groups = {}
        for s, rv in items:
            k = self.coarse(s, live, () if rv is None else (rv,), frozenset(), text, skip)
            g = groups.get(k)
            if g is None: groups[k] = [s, rv]
            elif rv is None: g[0] = self.join(g[0], s, live, False, tag)
            else:
                g[0].gval["\0rv"] = g[1]; s.gval["\0rv"] = rv
                g[0] = self.join(g[0], s, live, False, tag)
                g[1] = g[0].gval.pop("\0rv")
        return [tuple(g) for g in groups.values()]
    def join(self, A, B, regs_live, widen, tagname):
        """join two states of the same point; symbols introduced are named after tagname"""
        S = self.S; J = State(); J.depth = A.depth; J.trace = A.trace; J.org = A.org
        pair = {}; newsyms = []
        objpairs = []
        def jv(a, b):
            a = self.norm(A, a); b = self.norm(B, b)
            if a == b:
                return a
            k = (a, b)
            r = pair.get(k)
            if r is not None: return r
            ba, oa = self.base_of(A, a); bb, ob = self.base_of(B, b)
            if ba is not None and bb is not None and ba != bb and S.isobj[ba] and S.isobj[bb] \
               and S.name[ba] == S.name[bb] and ba in A.objs and bb in B.objs:
                kk = (T(ba), T(bb))
                n = pair.get(kk)
                if n is None:
                    n = T(S.new(S.name[ba], ptr=True, lo=4096, isobj=True, tags=S.tags[ba])); pair[kk] = n
                    objpairs.append((n[1][0][0], ba, bb))
                r = add(n, jv(oa, ob)); pair[k] = r
                return r
            if ba is not None and ba == bb and S.isobj[ba]:
                r = add(T(ba), jv(oa, ob)); pair[k] = r
                return r
            isp = any(S.ptr[s] for s in syms_of(a)) or any(S.ptr[s] for s in syms_of(b))
            tg = frozenset().union(*[S.tags[s] for s in list(syms_of(a)) + list(syms_of(b))]) if not (is_int(a) and is_int(b)) else frozenset()
            # values that differ from an earlier pair by the same constant on both sides keep that relation
            nk = None
            if not isp:
                c0 = a[0] if not is_int(a) else b[0] if not is_int(b) else a
                nk = ("n", sub(a, c0), sub(b, c0)); h = pair.get(nk)
                if h is not None:
                    r = add(h[0], c0 - h[1]); pair[k] = r
                    return r
            s = S.new(("join", tagname), ptr=isp, tags=tg)
            r = T(s); pair[k] = r; newsyms.append((s, a, b))
            if nk is not None: pair[nk] = (r, c0)
            return r
        for r in (regs_live if regs_live is not None else A.regs):
            if r in A.regs and r in B.regs: J.regs[r] = jv(A.regs[r], B.regs[r])
        J.args = tuple(jv(x, y) for x, y in zip(A.args, B.args))
        J.frames = A.frames
        for k in A.gval:
            if k in B.gval: J.gval[k] = jv(A.gval[k], B.gval[k])
        J.ghost = dict(A.ghost)
        for k in A.ghost:
            if A.ghost[k] != B.ghost.get(k): raise AnalysisError("join of different ghosts")
        def jobj(s, oa, ob):
            na = oa.nul or oa.fill == "z"; nb = ob.nul or ob.fill == "z"
            n = Obj(oa.kind, None if oa.size is None or ob.size is None else jv(oa.size, ob.size),
                    oa.fill if oa.fill == ob.fill else "?", oa.name, {}, oa.tags | ob.tags, oa.freed or ob.freed,
                    tuple(z for z in oa.zero if z in ob.zero), None, oa.nul if oa.nul == ob.nul else bool(na and nb))
            for k in oa.slen:
                if k in ob.slen: n.slen[k] = jv(oa.slen[k], ob.slen[k])
            for k in oa.cells:
                if k in ob.cells and oa.cells[k][0] == ob.cells[k][0]:
                    n.cells[k] = (oa.cells[k][0], jv(oa.cells[k][1], ob.cells[k][1]))
                elif is_int(k) and k not in ob.cells:
                    if ob.fill == "z" and oa.fill == "z" and not any(not is_int(x) for x in ob.cells):
                        n.cells[k] = (oa.cells[k][0], jv(oa.cells[k][1], 0))
                    else: n.fill = "?" if n.fill != "u" else "u"
                elif n.fill == "z": n.fill = "?"
            if oa.fill == "z" and ob.fill == "z":
                for k in ob.cells:
                    if k not in oa.cells and is_int(k): n.cells[k] = (ob.cells[k][0], jv(0, ob.cells[k][1]))
                    elif k not in oa.cells: n.fill = "?"
            J.objs[s] = n
            ua = [k for k in oa.cells if not is_int(k) or k not in ob.cells]; ub = [k for k in ob.cells if not is_int(k) or k not in oa.cells]
            if ua and ub and not (all(is_int(k) for k in ua) and all(is_int(k) for k in ub)): moved.append((s, oa, ob, ua, ub))
        moved = []
        done = set()
        for s in list(A.objs):
            if s in B.objs: jobj(s, A.objs[s], B.objs[s]); done.add(s)
            elif s in self.sym2glob: jobj(s, A.objs[s], self.get_obj(B, s)); done.add(s)
        for s in B.objs:
            if s in self.sym2glob and s not in A.objs: jobj(s, self.get_obj(A, s), B.objs[s])
        i = 0
        while i < len(objpairs):
            n, ba, bb = objpairs[i]; i += 1
            jobj(n, A.objs[ba], B.objs[bb])
        # cells at symbolic offsets that correspond through a pair of joined values
        for s, oa, ob, ua, ub in moved:
            n = J.objs[s]
            for ka in ua:
                na = self.norm(A, ka)
                for kb in ub:
                    if ka == kb or oa.cells[ka][0] != ob.cells[kb][0]: continue
                    nb = self.norm(B, kb); r = na if na == nb else pair.get((na, nb))
                    if r is None and not is_int(na) and not is_int(nb):
                        h = pair.get(("n", sub(na, na[0]), sub(nb, na[0])))
                        r = add(h[0], na[0] - h[1]) if h is not None else None
                    if r is not None and r not in n.cells:
                        n.cells.pop(ka, None); n.cells[r] = (oa.cells[ka][0], jv(oa.cells[ka][1], ob.cells[kb][1]))
        # objects only one side has (referenced from joined values as unknown) are dropped
        # bounds
        for s in set(A.lo) | set(B.lo):
            v = min(A.lo.get(s, S.lo[s]), B.lo.get(s, S.lo[s]))
            if v > S.lo[s]: J.lo[s] = v
        for s in set(A.hi) | set(B.hi):
            v = max(A.hi.get(s, S.hi[s]), B.hi.get(s, S.hi[s]))
            if v < S.hi[s]: J.hi[s] = v
        for s, a, b in newsyms:
            la, ha = self.rng(A, a); lb, hb = self.rng(B, b)
            if widen:
                l = la if lb >= la else max([x for x in (-128, -1, 0, 1) if x <= lb], default=-INF)
                h = ha if hb <= ha else min([x for x in (-1, 0, 1, 127, 255) if x >= hb], default=INF)
            else: l = min(la, lb); h = max(ha, hb)
            if l < 0 and h > 0 and not S.ptr[s] and self.ge0(A, a, 2) and self.ge0(B, b, 2): l = 0
            if l > -INF: J.lo[s] = int(l)
            if h < INF: J.hi[s] = int(h)
            if self.is_ne0(A, a) and self.is_ne0(B, b) and not (l > 0 or h < 0): J.ne = J.ne | {T(s)}
        for t in A.ne & B.ne: J.ne = J.ne | {t}
        for t in A.rel:
            if t in B.rel or self.ge0(B, t): J.rel = J.rel | {t}
        # facts rewritten through the pairs, both directions
        back = {s: (a, b) for s, a, b in newsyms}
        cand = set()
        vals = [(T(s), a, b) for s, a, b in newsyms if not S.ptr[s]]
        others = []; sizes = {o.size for o in J.objs.values() if o.size is not None and not is_int(o.size)}
        for v in [o.size for o in J.objs.values() if o.size is not None] + list(J.regs.values()) + list(J.args):
            if is_int(v) or any(x in back or S.ptr[x] for x in syms_of(v)) or (v, v, v) in others: continue
            others.append((v, v, v))
        if len(vals) <= 24:
            for i, (x, xa, xb) in enumerate(vals):
                for (y, ya, yb) in vals[i + 1:] + others[:40]:
                    for sg in (1, -1):
                        da = scale(sub(xa, ya), sg); db = scale(sub(xb, yb), sg)
                        # the tightest constant: known on the side where the difference is one, 0 otherwise
                        da = self.norm(A, da); db = self.norm(B, db)
                        c = min(da, db) if is_int(da) and is_int(db) else da if is_int(da) else db if is_int(db) else 0
                        for c in ((c, 0) if c and -4 <= c <= 4 and not widen and y in sizes else (0,)):
                            if self.rng(A, da)[1] < c or self.rng(B, db)[1] < c: continue
                            if self.ge0(A, sub(da, c), 2) and self.ge0(B, sub(db, c), 2):
                                t = sub(scale(sub(x, y), sg), c)
                                if not is_int(t) and self.rng(J, t)[0] < 0: J.rel = J.rel | {t}
                                break
            # a fact of one side, rewritten through the pairs, that the other side entails too
            for X, Y, ix in ((A, B, 1),) if widen else ((A, B, 1), (B, A, 2)):
                sub1 = {}
                for v in vals:
                    x = v[ix]
                    if not is_int(x) and len(x[1]) == 1 and x[1][0][1] == 1: sub1.setdefault(x[1][0][0], []).append((v[0], x[0], v[3 - ix]))
                if not sub1: continue
                for f in X.rel:
                    ss = [q for q, _ in f[1] if q in sub1]
                    for chosen in ([(q,) for q in ss] + ([tuple(ss)] if len(ss) > 1 else [])):
                        tj = ty = f
                        for q in chosen:
                            n, c, y = sub1[q][0]; k = dict(f[1])[q]
                            tj = add(tj, scale(sub(sub(n, c), T(q)), k)); ty = add(ty, scale(sub(sub(y, c), T(q)), k))
                        if is_int(tj) or tj in J.rel or self.rng(J, tj)[0] >= 0: continue
                        if self.ge0(Y, ty, 2): J.rel = J.rel | {tj}
        return J

    # ------------------------------------------------------------ execution
    def ev(self, st, v):
        k = v[0]
        if k == "i":
            r = st.regs.get(v[1])
            if r is None: return T(self.S.memoed(("undefreg", v[1])))
            return self.norm(st, r)
        if k == "c": return wrap(v[1], v[2])
        if k == "a": return self.norm(st, st.args[v[1]]) if v[1] < len(st.args) else self.fresh(("arg?", v[1]))
        if k == "g": return self.const(v)
        return self.fresh(("undef",))

    def run_function(self, name, args, st, inst=None):
        """-> list of (state, retval); the state's regs/args are the caller's again"""
        fn = self.fns[name]
        self.fn_seen.add(name)
        if len(self.callstack) > 60: raise AnalysisError("call depth")
        saved_regs, saved_args = st.regs, st.args; saved_org = st.org; st.org = 0
        st.frames = st.frames + ((saved_regs, saved_args),)
        st.regs = {}; st.args = tuple(args)
        self.callstack.append(name)
        if self.monitor: self.monitor.enter(self, st, name, args)
        exits = []
        nparts = defaultdict(int); pend = {}; heap = []; visited = defaultdict(dict); acc = {}
        def push(b, s, prev):
            # phis
            vals = []
            blk = fn.blocks[b]
            for i in blk:
                if i["op"] != "phi": break
                for p, v in i["in"]:
                    if p == prev: vals.append((i["id"], self.ev(s, v))); break
            for k, v in vals: s.regs[k] = v
            keep = fn.livein[b]
            phis = {k for k, _ in vals}
            s.regs = {k: v for k, v in s.regs.items() if k in keep or k in phis}
            if self.monitor and b in fn.headers and prev in fn.loops[b]: self.monitor.on_backedge(self, s, name, b)
            if b not in pend: pend[b] = []; heapq.heappush(heap, (fn.prio[b], b))
            pend[b].append(s)
        push(0, st, -1)
        L = self.opts["loop_states"]
        if "leaf_loops" in self.opts and all(i["op"] != "call" or i["callee"][0] == "g" and i["callee"][1] in ("tolower", "toupper", "__ctype_b_loc", "__ctype_tolower_loc") or str(i["callee"][1]).startswith("llvm.") for blk in fn.blocks for i in blk): L = self.opts["leaf_loops"]
        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b)
            hdr = b in fn.headers
            phis = [i["id"] for i in fn.blocks[b] if i["op"] == "phi"]
            live = fn.livein[b] | set(phis)
            uniq = {}
            if len(sts) > 1 or hdr:
                for s in sts:
                    k = self.canon(s, live)
                    if k not in uniq: uniq[k] = s
            else: uniq = {0: sts[0]}
            run = []
            if hdr:
                counters = fn.counters(b)
                if self.opts.get("ptr_counters"): counters = counters | fn.ptr_counters(b)
                seen = visited[b]
                new = [(k, s) for k, s in uniq.items() if k not in seen]
                byg = {}
                for k, s in new:
                    if nparts[b] < self.opts["max_parts"]:
                        cs = counters
                        for d, q in fn.dynb[b]:
                            try: v = self.norm(s, self.ev(s, q))
                            except Exception: v = None
                            if is_int(v) and 2 <= v <= 8: cs = cs - d
                        g = self.coarse(s, live, (), cs, False, len(s.frames))
                    else: g = self.shape(s, live)
                    if (b, g) not in acc:
                        nparts[b] += 1
                        if self.opts.get("dbg") == (name, b): self.dbgkeys.append(g)
                        acc[(b, g)] = [0, None]
                    byg.setdefault(g, []).append((k, s))
                for g, lst in byg.items():
                    a = acc[(b, g)]
                    if a[1] is None and a[0] + len(lst) <= L:
                        for k, s in lst: a[0] += 1; seen[k] = 1; run.append(s)
                        continue
                    # join everything new into the accumulated state of this partition and continue with the join once
                    rounds = a[0] - L
                    j = a[1]; ka = None if j is None else self.canon(j, live)
                    for k, s in lst:
                        seen[k] = 1
                        j = s if j is None else self.join(j, s, live, rounds > 1, (name, b))
                    a[0] = max(a[0], L) + 1; a[1] = j
                    kj = self.canon(j, live)
                    if kj == ka: continue
                    if kj in seen and ka is not None: continue
                    if self.opts.get("dbg") and self.opts["dbg"][0] == name and rounds > 3:
                        import itertools
                        print("ROUND", b, rounds, len(lst), hash(g) % 9999, nparts[b])
                        for x, y in itertools.zip_longest(ka, kj):
                            if x != y: print("   A", str(x)[:300]); print("   J", str(y)[:300])
                    if rounds > 40:
                        if self.opts.get("dbg"):
                            import itertools
                            for x, y in itertools.zip_longest(ka, kj):
                                if x != y: print("   A", str(x)[:600]); print("   J", str(y)[:600])
                        raise AnalysisError("no fixpoint in %s" % name)
                    seen[kj] = 1; run.append(j.fork())
            else:
                run = list(uniq.values())
                if not fn.loopdepth[b]:
                    for s in run: s.org = 0
                if self.opts["merge"] and len(run) > self.opts["merge_block"]:
                    run = [s for s, _ in self.merge([(s, None) for s in run], live, (name, b), len(run[0].frames))]
                cap = self.opts["exit_join"]
                if len(run) > cap:
                    run = self._compact(run, live, (name, b))
            if hdr and fn.loopdepth[b] == 1:
                for s in run: self.norg += 1; s.org = self.norg
            for s in run:
                self.blocks_seen.add((name, b)); self.nstates += 1
                for out, nxt in self.exec_block(fn, b, s):
                    if nxt is None: exits.append(out)
                    else: push(nxt, out, b)
        # restore callers
        res = {}
        for s, rv in exits:
            if self.monitor: self.monitor.leave(self, s, name, args, rv)
            dep = len(s.frames)
            for ob in [k for k, o in s.objs.items() if o.kind == "stack" and self.S.name[k][-1] == dep]:
                o = s.objs[ob]; s.objs[ob] = Obj(o.kind, o.size, "?", o.name, None, o.tags, True)
            s.regs, s.args = s.frames[-1][0], s.frames[-1][1]
            s.frames = s.frames[:-1]; s.org = saved_org
            s.regs = dict(s.regs)
            k = self.canon(s, None, (rv,) if rv is not None else ())
            if k not in res: res[k] = (s, rv)
        self.callstack.pop()
        out = list(res.values())
        if self.opts["merge"] and len(out) > self.opts["merge"]: out = self._merge_exit(out, set(saved_regs), (name, "exit"))
        ej = self.opts["exit_join"]
        if len(out) > ej: raise AnalysisError("too many exit states (%d) in %s" % (len(out), name))
        return out

    # ------------------------------------------------------------ function summaries (memoised on the reachable part of the state)
    def closure(self, name):
        c = self._closure.get(name)
        if c is None:
            fs = {name}; gs = set(); work = [name]; ind = False
            def refs(v):
                if isinstance(v, list):
                    if v and v[0] == "g" and isinstance(v[1], str):
                        if v[1] in self.fns:
                            if v[1] not in fs:
                                fs.add(v[1])
                                if not self.fns[v[1]].decl: work.append(v[1])
                        elif v[1] in self.globals and v[1] not in gs:
                            gs.add(v[1])
                            for c in self.globals[v[1]].get("cells", ()): refs(c[2])
                    else:
                        for x in v: refs(x)
            while work:
                f = self.fns[work.pop()]
                for blk in f.blocks:
                    for i in blk:
                        if i["op"] == "call" and i["callee"][0] != "g": ind = True
                        for k in ("ops", "in", "base", "idx", "callee", "cond"):
                            if k in i: refs(i[k])
            if ind or any(n in self.opts.get("callback_externals", ()) for n in fs): gs = None
            c = self._closure[name] = (fs, gs)
        return c
    def call_memo(self, name, args, st, i):
        if not self.opts["memo"] or "\0rv" in st.gval: return self.run_function(name, args, st, i)
        fs, gs = self.closure(name)
        rs = st.fork(); rs.regs = {}; rs.args = tuple(args); depth = len(st.frames)
        rs.frames = (({}, ()),) * depth
        if gs is not None:
            for k in [k for k in rs.objs if k in self.sym2glob and self.sym2glob[k] not in gs]: del rs.objs[k]
        key = (name, tuple(self.callstack.count(x) for x in sorted(fs) if x in self.callstack), self.canon(rs))
        m = self._m; order = [s for s, k in m.items() if k > 0]
        R = list(rs.objs)
        hit = self._memo.get(key)
        if hit is None:
            first = self.S.new(("mark",)); mark = rs.trace
            rs.args = tuple(T(s) for s in R if s not in self.sym2glob) + tuple(a for a in args if not is_int(a))     # kept alive: what the callee learns about its arguments
            rs.frames = (({}, ()),) * depth
            ent = {s: rs.objs[s] for s in R}
            self.memo_miss += 1
            res = self.run_function(name, args, rs, i)
            packed = []
            for s, rv in res:
                tr = []; t = s.trace
                while t is not None and t is not mark: tr.append((t[1], t[2])); t = t[0]
                tr.reverse()
                packed.append((s, rv, tuple(tr)))
            hit = self._memo[key] = (order, first, ent, packed)
        else: self.memo_hit += 1
        order0, first, ent, packed = hit
        out = []
        base = dict(zip(order0, order))
        for s, rv, tr in packed:
            out.append(self.apply_summary(st, s, rv, tr, base, first, ent))
        return out
    def apply_summary(self, st, s, rv, tr, base, first, ent):
        S = self.S; mp = dict(base)
        def rs(x):
            y = mp.get(x)
            if y is None:
                nm = S.name[x]
                if x < first or x in self.sym2glob or x in self.sym2fn: y = x
                elif x in S.derived:
                    k = tuple(rt(p) if is_term(p) else p for p in nm)
                    y = S.memoed(k, ptr=S.ptr[x], lo=S.lo[x], hi=S.hi[x], tags=S.tags[x])
                else: y = S.new(nm, ptr=S.ptr[x], lo=S.lo[x], hi=S.hi[x], tags=S.tags[x], isobj=S.isobj[x])
                mp[x] = y
            return y
        def rt(v):
            v = self.norm(s, v)
            if v.__class__ is int: return v
            if len(v[1]) == 1: return (v[0], ((rs(v[1][0][0]), v[1][0][1]),))
            r = v[0]
            for x, k in v[1]: r = add(r, (0, ((rs(x), k),)))
            return r
        n = st.fork()
        for x, o in s.objs.items():
            if ent.get(x) is o: continue
            y = rs(x)
            n.objs[y] = Obj(o.kind, None if o.size is None else rt(o.size), o.fill, o.name,
                            {(k if k.__class__ is int else rt(k)): (c[0], c[1] if c[1].__class__ is int else rt(c[1])) for k, c in o.cells.items()},
                            o.tags, o.freed, o.zero, {(k if k.__class__ is int else rt(k)): rt(v) for k, v in o.slen.items()} if o.slen else None, o.nul)
        if s.rel:
            n.rel = n.rel | {t for t in (rt(t) for t in s.rel) if t.__class__ is not int}
        if s.ne:
            n.ne = n.ne | {t for t in (rt(t) for t in s.ne) if t.__class__ is not int}
        n.ghost = dict(s.ghost)
        n.gval = {k: rt(v) for k, v in s.gval.items()}
        rv2 = None if rv is None else rt(rv)
        for x, v in s.lo.items():
            if x in mp: n.lo[mp[x]] = v
        for x, v in s.hi.items():
            if x in mp: n.hi[mp[x]] = v
        n.trace = (st.trace, None, tr)
        return n, rv2

    def _compact(self, run, live, tag):
        if self.opts.get("dbg"):
            print("COMPACT", tag, len(run)); self.dbgkeys = [self.coarse(s, live, (), frozenset(), False, len(s.frames)) for s in run]; raise AnalysisError("dbg")
        groups = {}
        for s in run:
            g = self.shape(s, live)
            if g in groups: groups[g] = self.join(groups[g], s, live, False, tag)
            else: groups[g] = s
        return list(groups.values())

    def exec_block(self, fn, b, st):
        """-> list of ((state)|(state,retval), next block or None)"""
        insts = fn.blocks[b]
        cur = [st]; n = len(insts)
        for idx in range(n):
            i = insts[idx]; op = i["op"]
            if op == "phi": continue
            self.steps += len(cur); self.fsteps[fn.name] += len(cur)
            if self.steps > self.MAXSTEPS: raise AnalysisError("step budget exceeded in %s" % fn.name)
            if idx == n - 1:
                out = []
                for s in cur:
                    if op == "br":
                        if "cond" in i:
                            c = self.ev(s, i["cond"])
                            if is_int(c): cs = [(s, c & 1)]
                            else: cs = self.compare(s, "ne", c, 0)
                            for s2, v in cs:
                                s2.trace = (s2.trace, self.site(i), "branch %s" % ("taken" if v else "not taken"))
                                out.append((s2, i["succ"][0] if v else i["succ"][1]))
                        else: out.append((s, i["succ"][0]))
                    elif op == "switch":
                        c = self.ev(s, i["cond"])
                        rest = s
                        for cv, tb in i["cases"]:
                            if rest is None: break
                            r = self.compare(rest, "eq", c, cv); rest = None
                            for s2, v in r:
                                if v:
                                    s2.trace = (s2.trace, self.site(i), "case %d" % cv); out.append((s2, tb))
                                else: rest = s2
                        if rest is not None: out.append((rest, i["default"]))
                    elif op == "ret":
                        rv = self.ev(s, i["ops"][0]) if i.get("ops") else None
                        out.append(((s, rv), None))
                    elif op == "unreachable": pass
                    else: raise AnalysisError("terminator " + op)
                return out
            nxt = []
            for s in cur:
                r = self.step(fn, i, op, s)
                if r is None: nxt.append(s)
                else: nxt.extend(r)
            if not nxt: return []
            cur = nxt
        return []

    def step(self, fn, i, op, st):
        """execute one instruction in place; returns None (same state) or a list of states"""
        if op == "getelementptr":
            p = self.ev(st, i["base"])
            v = add(p, i.get("off", 0))
            for x, k in i.get("idx", ()): v = add(v, scale(self.ev(st, x), k))
            st.regs[i["id"]] = v
            return None
        if op == "load":
            p = self.ev(st, i["ops"][0])
            if self.monitor: self.monitor.access(self, st, p, i["size"], False, i)
            if is_int(p) and 0 <= p < 4096: return []
            st.regs[i["id"]] = self.load(st, p, i["size"], i["ty"], i)
            return None
        if op == "store":
            v = self.ev(st, i["ops"][0]); p = self.ev(st, i["ops"][1])
            if self.monitor: self.monitor.access(self, st, p, i["size"], True, i)
            if is_int(p) and 0 <= p < 4096: return []
            self.store(st, p, i["size"], v, i)
            if self.opts.get("store_tags") and not is_int(v):
                tg = frozenset().union(*[self.S.tags[x] for x in syms_of(v) if not self.S.isobj[x] and not self.S.ptr[x]])
                if tg:
                    self.add_tags(st, p, tg)
                    if self.monitor: self.monitor.on_tagged_store(self, st, p, tg, i)
            return None
        if op == "icmp":
            a = self.ev(st, i["ops"][0]); b = self.ev(st, i["ops"][1])
            res = self.compare(st, i["pred"], a, b, i["oty"][1])
            for s, v in res: s.regs[i["id"]] = v
            return [s for s, _ in res]
        if op == "call": return self.call(fn, i, st)
        if op == "alloca":
            s = self.S.memoed(("obj", "alloca", fn.name, i["id"], len(st.frames)), ptr=True, lo=4096, isobj=True)
            n = self.ev(st, i["n"])
            st.objs[s] = Obj("stack", scale(n, i["esize"]) if not is_int(n) else n * i["esize"], "u", ("alloca", fn.name, i["id"]))
            st.regs[i["id"]] = T(s)
            return None
        if op in ("add", "sub"):
            a = self.ev(st, i["ops"][0]); b = self.ev(st, i["ops"][1])
            v = add(a, b) if op == "add" else sub(a, b)
            if is_int(v): v = wrap(v, i["ty"][1])
            st.regs[i["id"]] = v
            return None
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            v = self.ev(st, i["ops"][0]); w = i["ty"][1]
            if op == "zext":
                sw = i["sty"][1]
                if is_int(v): v = v & ((1 << sw) - 1)
                else:
                    lo, hi = self.rng(st, v)
                    if lo < 0:
                        tg = frozenset().union(*[self.S.tags[s] for s in syms_of(v)])
                        if sw <= 32: v = T(self.S.memoed(("zx", sw, v), lo=0, hi=(1 << sw) - 1, tags=tg))
                        else: v = T(self.S.memoed(("zx", sw, v), lo=0, tags=tg))
            elif op == "trunc":
                if is_int(v): v = wrap(v, w)
                elif w < 32:
                    lo, hi = self.rng(st, v)
                    if not (lo >= -(1 << (w - 1)) and hi <= (1 << (w - 1)) - 1):
                        tg = frozenset().union(*[self.S.tags[s] for s in syms_of(v)])
                        # trunc of a zext gives the original back
                        nm = self.S.name[v[1][0][0]] if len(v[1]) == 1 and v[0] == 0 and v[1][0][1] == 1 else None
                        if nm and nm[0] == "zx" and nm[1] == w: v = nm[2]
                        else: v = T(self.S.memoed(("tr", w, v), lo=-(1 << (w - 1)) if w > 1 else 0, hi=(1 << (w - 1)) - 1 if w > 1 else 1, tags=tg))
            elif op == "inttoptr": pass
            st.regs[i["id"]] = v
            return None
        if op == "select":
            c = self.ev(st, i["ops"][0])
            cs = [(st, c & 1)] if is_int(c) else self.compare(st, "ne", c, 0)
            for s, v in cs: s.regs[i["id"]] = self.ev(s, i["ops"][1 if v else 2])
            return [s for s, _ in cs]
        if op in ("mul", "shl", "and", "or", "xor", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a = self.ev(st, i["ops"][0]); b = self.ev(st, i["ops"][1]); w = i["ty"][1]
            st.regs[i["id"]] = self.arith(st, op, a, b, w)
            return None
        if op in ("fcmp",):
            n = st.fork(); st.regs[i["id"]] = 0; n.regs[i["id"]] = 1
            return [st, n]
        if op == "va_arg":
            st.regs[i["id"]] = self.fresh(("va",), ptr=i["ty"][0] == "p")
            return None
        # anything else: unknown value
        st.regs[i["id"]] = self.fresh((op, self.site(i)), ptr=i["ty"][0] == "p")
        return None

    def arith(self, st, op, a, b, w):
        if is_int(a) and is_int(b):
            m = (1 << w) - 1
            try:
                if op == "mul": r = a * b
                elif op == "shl": r = a << (b & 63)
                elif op == "and": r = a & b
                elif op == "or": r = a | b
                elif op == "xor": r = a ^ b
                elif op == "lshr": r = (a & m) >> (b & 63)
                elif op == "ashr": r = a >> (b & 63)
                elif op == "sdiv": r = int(a / b) if b else 0
                elif op == "udiv": r = (a & m) // (b & m) if b else 0
                elif op == "srem": r = a - b * int(a / b) if b else 0
                else: r = (a & m) % (b & m) if b else 0
            except Exception: r = 0
            return wrap(r, w)
        if op == "mul":
            if is_int(b): return scale(a, b)
            if is_int(a): return scale(b, a)
        if op == "shl" and is_int(b) and b < 31: return scale(a, 1 << b)
        if op == "or" and (a == 0 or b == 0): return b if a == 0 else a
        if op == "xor":
            if b == 0: return a
            if a == 0: return b
            if a == b: return 0
        if op == "and" and (a == 0 or b == 0): return 0
        if op == "and" and a == b: return a
        tg = frozenset().union(*[self.S.tags[s] for s in list(syms_of(a)) + list(syms_of(b))])
        lo, hi = -INF, INF
        if op == "and":
            for x in (a, b):
                if is_int(x) and x >= 0: lo = 0; hi = min(hi, x)
        if op in ("urem", "srem") and is_int(b) and b > 0:
            hi = b - 1; lo = 0 if op == "urem" or self.rng(st, a)[0] >= 0 else -(b - 1)
        if op in ("udiv", "sdiv", "lshr", "ashr") and self.rng(st, a)[0] >= 0:
            lo = 0; hi = self.rng(st, a)[1]
        if op in ("and", "or", "xor") and not is_int(a) and not is_int(b) and repr(b) < repr(a): a, b = b, a
        return T(self.S.memoed((op, a, b, w, lo, hi), lo=lo, hi=hi, tags=tg))

    def call(self, fn, i, st):
        c = i["callee"]; name = None
        if c[0] == "g": name = c[1]
        else:
            p = self.ev(st, c)
            if not is_int(p) and len(p[1]) == 1 and p[1][0][0] in self.sym2fn: name = self.sym2fn[p[1][0][0]]
        args = [self.ev(st, a) for a in i["ops"]]
        if name is None:
            self.unmodelled.add("<indirect@%s>" % self.site(i))
            st.regs[i["id"]] = self.fresh(("icall", self.site(i)), ptr=i["ty"][0] == "p")
            return None
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"): return None
        self.calls_seen.add((fn.name, i["id"], name))
        f = self.fns.get(name)
        res = self.dispatch(name, f, args, st, i)
        out = []
        rid = i["id"]; void = i["ty"][0] == "v"
        for s, rv in res:
            if not void:
                s.regs[rid] = rv if rv is not None else self.fresh(("ret", name), ptr=i["ty"][0] == "p")
            out.append(s)
        return out

    def dispatch(self, name, f, args, st, i):
        res = None
        if self.monitor:
            r = self.monitor.pre_call(self, st, name, args, i)
            if r is not None:           # monitor supplies the outcome
                self.ext_calls[name] += 1
                return r
        m = self.models.get(name)
        if m is not None:
            self.ext_calls[name] += 1
            try: res = m(self, st, args, i)
            except Crash: res = []
        elif f is not None and not f.decl:
            if self.callstack.count(name) > self.opts["rec_depth"]:
                res = self.opaque(name, f, args, st, i)
            else:
                st.trace = (st.trace, self.site(i), "call " + name)
                res = self.call_memo(name, args, st, i)
        else:
            self.ext_calls[name] += 1
            self.unmodelled.add(name)
            res = self.opaque(name, f, args, st, i)
        if self.monitor:
            out = []
            for s, rv in res:
                r = self.monitor.post_call(self, s, name, args, rv, i)
                if r is None: out.append((s, rv))
                else: out.extend(r)
            res = out
        return res

    def opaque(self, name, f, args, st, i):
        """unknown function: any result, may write through every pointer argument"""
        tys = i.get("aty", [])
        tags = frozenset() if self.opts.get("opaque_notags") else frozenset().union(*[self.tags_of(st, a) for a, t in zip(args, tys) if t[0] == "p"])
        for a, t in zip(args, tys):
            if t[0] == "p":
                b, off = self.base_of(st, a)
                if b is not None and b in st.objs or b in self.sym2glob: self.havoc_range(st, b, off, None, tags) if b is not None else None
        if i["ty"][0] == "v": return [(st, None)]
        kw = {}
        if i["ty"][0] == "i" and i["ty"][1] <= 32: kw = dict(lo=-(1 << (i["ty"][1] - 1)), hi=(1 << (i["ty"][1] - 1)) - 1)
        return [(st, self.fresh(("ret", name), ptr=i["ty"][0] == "p", **kw))]

class Monitor:
    """default: no automaton"""
    def enter(self, e, st, name, args): pass
    def leave(self, e, st, name, args, rv): pass
    def pre_call(self, e, st, name, args, i): return None
    def post_call(self, e, st, name, args, rv, i): return None
    def access(self, e, st, p, size, write, i): pass
    def str_read(self, e, st, p, i): pass
    def on_free(self, e, st, p, i): pass
    def on_copy(self, e, st, d, s, n, i): pass
    def on_strcpy(self, e, st, d, s, n, i): pass
    def on_format(self, e, st, d, fmt, args, i): pass
    def on_exit(self, e, st, code, i): pass
    def on_cmp(self, e, st, a, b, n, equal, i): pass
    def on_absent(self, e, st, p, needle, i): pass
    def on_backedge(self, e, st, fn, b): pass
    def on_tagged_store(self, e, st, p, tags, i): pass
