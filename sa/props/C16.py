"""Descriptor typestate of both processes on every path of mlle_start_executable (pipe, fork, dup2, close, exec, BIO and TLS calls each succeeding or failing, allocation failing), then of mlle_connections_free on every
connection it returned. Rule: the child runs the executable only with standard input and output replaced by the two pipes and no other pipe end open, and never returns into the tool's code; the parent keeps exactly the
other two ends, reads from the one and writes to the other; nothing is closed twice; on failure every pipe end is closed, NULL is returned and an error is left (unless memory ran out); freeing the connection closes what was kept."""
from session import *
import toolsess, contracts
from models import ext_ptr, fresh
from build import AnalysisError
MOD = {}
def model(*names):
    def deco(f):
        for n in names: MOD[n] = f
        return f
    return deco
CLOEXEC = 0o2000000
def fdsym(e, k, end): return e.S.memoed(("fd", k, end), lo=3, hi=2**20)
def ident(e, st, v):
    """(pipe number, end) of a descriptor value, the constant, or None"""
    v = e.norm(st, v)
    if is_int(v): return v
    if v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1:
        n = e.S.name[v[1][0][0]]
        if isinstance(n, tuple) and n[0] == "fd": return n[1:]
    return None
def opened(st): return st.ghost.get("open", ())
def setopen(st, s): st.ghost["open"] = tuple(sorted(s))
@model("pipe", "pipe2")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "pipe fails")
    k = st.ghost.get("np", 0) + 1; st.ghost["np"] = k
    if k > 4: raise AnalysisError("more than four pipes on one path")
    for off, end in ((0, "r"), (4, "w")): e.store(st, add(a[0], off), 4, T(fdsym(e, k, end)))
    setopen(st, set(opened(st)) | {(k, "r"), (k, "w")})
    if i["callee"][1] == "pipe2" and is_int(e.norm(st, a[1])) and e.norm(st, a[1]) & CLOEXEC: st.ghost["cx"] = tuple(sorted(set(st.ghost.get("cx", ())) | {(k, "r"), (k, "w")}))
    e.monitor.ev("pipes", i, e)
    return [(st, 0), (n, -1)]
@model("fcntl", "fcntl64")
def _(e, st, a, i):
    f = ident(e, st, a[0]); c = e.norm(st, a[1])
    if c == 2 and f.__class__ is tuple:
        v = e.norm(st, a[2]); cx = set(st.ghost.get("cx", ()))
        cx = cx | {f} if is_int(v) and v & 1 else cx - {f}
        n = st.fork(); st.ghost["cx"] = tuple(sorted(cx)); return [(st, 0), (n, -1)]
    return [(st, fresh(e, ("fcntl",), lo=-1))]
@model("fork", "vfork")
def _(e, st, a, i):
    e.monitor.ev("forks", i, e)
    f = st.fork(); e.note(f, i, "fork fails"); c = st.fork(); e.note(c, i, "in the child"); c.ghost["child"] = 1
    return [(st, fresh(e, ("pid",), lo=1, hi=2**22)), (c, 0), (f, -1)]
def do_close(e, st, f, i):
    e.monitor.ev("closes", i, e)
    if f is None: e.report(st, "unknown-close", i, "a descriptor that was not opened here is closed"); return False
    if f.__class__ is int:
        if f in (0, 1, 2):
            if not st.ghost.get("child"): e.report(st, "closes-standard-stream", i, "the tool's own standard stream %d is closed" % f)
            st.ghost["s%d" % f] = "closed"; return True
        if f < 0: return False
        e.report(st, "unknown-close", i, "descriptor %d is closed" % f); return False
    if f not in opened(st): e.report(st, "double-close", i, "the %s end of pipe %d is closed twice" % (f[1], f[0])); return False
    setopen(st, set(opened(st)) - {f}); return True
@model("close")
def _(e, st, a, i): return [(st, 0 if do_close(e, st, ident(e, st, a[0]), i) else -1)]
@model("dup2", "dup3")
def _(e, st, a, i):
    o, n = ident(e, st, a[0]), ident(e, st, a[1])
    e.monitor.ev("dups", i, e)
    if o.__class__ is not tuple or o not in opened(st): e.note(st, i, "dup2 of a closed descriptor"); return [(st, -1)]
    if n not in (0, 1, 2): raise AnalysisError("dup2 to a descriptor other than a standard stream")
    f = st.fork(); e.note(f, i, "dup2 fails"); st.ghost["s%d" % n] = "pipe%d%s" % o
    return [(st, n), (f, -1)]
@model("execl", "execv", "execve", "execlp", "execvp", "execle")
def _(e, st, a, i):
    e.monitor.ev("executions", i, e); g = st.ghost
    if not g.get("child"): e.report(st, "exec-in-parent", i, "the tool replaces itself")
    left = [x for x in opened(st) if x not in g.get("cx", ())]
    for x in left: e.report(st, "child-keeps-pipe-end", i, "the executable starts with the %s end of pipe %d still open" % ("read" if x[1] == "r" else "write", x[0]))
    s0, s1 = g.get("s0"), g.get("s1")
    if not (s0 or "").startswith("pipe") or s0[-1] != "r": e.report(st, "wrong-stdin", i, "the executable's standard input is %s" % (s0 or "the tool's"))
    if not (s1 or "").startswith("pipe") or s1[-1] != "w": e.report(st, "wrong-stdout", i, "the executable's standard output is %s" % (s1 or "the tool's"))
    e.monitor.child.add((s0, s1))
    return [(st, -1)]
M_exit = lambda e, st, a, i: []
MOD["_exit"] = MOD["_Exit"] = M_exit
@model("access")
def _(e, st, a, i): n = st.fork(); return [(st, 0), (n, -1)]
@model("BIO_new_fd")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "BIO_new_fd fails"); h = ext_ptr(e, "BIO_new_fd"); f = ident(e, st, a[0])
    e.store(st, h, 4, a[0]); e.store(st, add(h, 8), 4, e.norm(st, a[1]))
    return [(st, h), (n, 0)]
@model("SSL_set_bio")
def _(e, st, a, i):
    if is_int(e.norm(st, a[0])): return []
    e.store(st, add(a[0], 64), 8, a[1]); e.store(st, add(a[0], 72), 8, a[2]); g = st.ghost
    for k, want, what in ((1, "r", "read"), (2, "w", "written")):
        if is_int(e.norm(st, a[k])): continue
        f = ident(e, st, e.load(st, a[k], 4, ["i", 32], i)); e.monitor.ev("transports", i, e)
        if f.__class__ is not tuple or f[1] != want or f not in opened(st): e.report(st, "wrong-transport", i, "the descriptor TLS data is %s through is %s" % (what, "not a pipe end that is open" if f.__class__ is not tuple or f not in opened(st) else "the %s end of a pipe" % f[1]))
        else: g["t" + want] = f[0]
    return [(st, None)]
@model("SSL_free", "SSL_CTX_free", "BIO_free", "BIO_free_all")
def _(e, st, a, i):
    if i["callee"][1] == "SSL_free" and not is_int(e.norm(st, a[0])):
        for off in (64, 72):
            b, o = e.base_of(st, a[0]); c = e.get_obj(st, b).cells.get(add(o, off))
            if c is None or is_int(e.norm(st, c[1])): continue
            if e.norm(st, e.load(st, add(c[1], 8), 4, ["i", 32], i)) not in (0,): do_close(e, st, ident(e, st, e.load(st, c[1], 4, ["i", 32], i)), i)
    return [(st, None if i["ty"][0] == "v" else 1)]
class Mon(Session):
    err = None; keep = None
    def __init__(self): Session.__init__(self); self.child = set(); self.keep = set(); self.root = True
    def pre_call(self, e, st, name, args, i): return None
    def leave(self, e, st, name, args, rv):
        if len(e.callstack) != 1 or name != "mlle_start_executable": return
        g = st.ghost
        if g.get("child"): e.report(st, "child-continues", None, "the child process returns into the tool's code"); return
        op = set(opened(st))
        if e.compare_const(st, rv, 0) is True:
            self.ev("failed starts")
            for x in op: e.report(st, "descriptor-leak", None, "a failed start leaves the %s end of pipe %d open" % ("read" if x[1] == "r" else "write", x[0]))
            if toolsess.err_set(e, st, self.err) is not True and not excused(st): e.report(st, "failure-without-error", None, "a failed start leaves no error")
            return
        self.ev("successful starts")
        if toolsess.err_set(e, st, self.err) is not False: e.report(st, "error-left-on-success", None, "a successful start leaves an error")
        r = [x[0] for x in op if x[1] == "r"]; w = [x[0] for x in op if x[1] == "w"]
        if len(r) != 1 or len(w) != 1: e.report(st, "wrong-ends-kept", None, "after a successful start the tool holds %s" % (", ".join("%s end of pipe %d" % (x[1], x[0]) for x in sorted(op)) or "no pipe end")); return
        if (g.get("tr"), g.get("tw")) != (r[0], w[0]): e.report(st, "wrong-transport", None, "TLS data does not go through the pipe ends the tool keeps")
        self.keep.add(("pipe%dr" % w[0], "pipe%dw" % r[0]))
def args(m):
    def f(e, st, a):
        o = e.new_obj(st, "ext", 8, "z", ("errcell",)); e.store(st, T(o), 8, 0); a[-1] = T(o); m.err = T(o)
        return a
    return f
def run(c):
    m = Mon()
    e = c.analyse("tool", "mlle_start_executable", m, [contracts.DIAG, MOD], args(m), opts=dict(SESSION_OPTS, track_allocfail=True), need=("pipe", "fork", "BIO_new_fd") if True else ())
    for k in ("executions", "failed starts", "successful starts", "forks", "transports"): c.need_count(k)
    for k in m.keep:
        for ch in m.child:
            if ch != k and all(x and x.startswith("pipe") for x in ch): c.report("crossed-pipes", "src/tool/mlle_spawn_posix.c", "mlle_start_executable", "the child uses %s and %s, the tool the other ends of %s and %s" % (ch + k))
    nv = len(e.violations); n = 0
    for st, rv in e.exits:
        if st.ghost.get("child") or e.compare_const(st, rv, 0) is True: continue
        s = st.fork(); cell = e.new_obj(s, "stack", 8, "z", ("conn",)); e.store(s, T(cell), 8, rv); s.gval["cell"] = T(cell)
        for u, _ in e.run_function("mlle_connections_free", [T(cell)], s):
            n += 1
            for x in opened(u): e.report(u, "descriptor-leak", None, "mlle_connections_free leaves the %s end of pipe %d open" % ("read" if x[1] == "r" else "write", x[0]))
    for v in e.violations[nv:]: c.findings.append((v.rule, v.site, v.fn, v.msg, v.trace))
    c.count("connections freed", n); c.need_count("connections freed")
