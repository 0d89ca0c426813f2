"""Runs the static analysis of one property and reports: VIOLATION / KNOWN-FINDING lines, replay file, evidence file."""
import os, sys, json, time, traceback, importlib
import build, engine, models, contracts
from build import AnalysisError
from engine import Engine, Monitor, State, INF
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")

class Ctx:
    def __init__(self, pid):
        self.pid = pid; self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.findings = []      # (rule, site, function, message, trace)
        self.runs = []; self.counts = {}; self.samples = []; self.rules = {}
    # ------------------------------------------------ interprocedural analysis
    def analyse(self, prog, root, monitor, mods=(), args=None, setup=None, opts=None, need=()):
        """run the abstract interpreter from `root`; need: external calls that must have been reached"""
        m = build.module_json(prog)
        o = dict(loop_states=1); o.update(opts or {})
        e = Engine(m, monitor, [models.M] + list(mods), o)
        f = e.fns.get(root)
        if f is None or f.decl: raise AnalysisError("anchor vanished: function %s in %s" % (root, prog))
        st = State()
        a = []
        for k, t in enumerate(f.argty):
            a.append(e.fresh(("arg", k), ptr=t[0] == "p", lo=4096 if t[0] == "p" else -2**31, hi=INF if t[0] == "p" else 2**31 - 1))
        if args: a = args(e, st, a)
        if setup: setup(e, st, a)
        t0 = time.time()
        exits = e.run_function(root, a, st)
        for n in need:
            if not e.ext_calls.get(n): raise AnalysisError("anchor vanished: no call of %s reached from %s" % (n, root))
        for v in e.violations: self.findings.append((v.rule, v.site, v.fn, v.msg, v.trace))
        self.runs.append(dict(program=prog, root=root, functions=len(e.fn_seen), blocks=len(e.blocks_seen), call_sites=len(e.calls_seen),
                              abstract_states=e.nstates, transfer_steps=e.steps, exit_states=len(exits), summaries=e.memo_miss, summary_reuses=e.memo_hit,
                              unmodelled_calls=sorted(e.unmodelled), seconds=round(time.time() - t0, 1)))
        for k, v in getattr(monitor, "events", {}).items(): self.count(k, v)
        e.exits = exits
        return e
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def report(self, rule, site, fn, msg, trace=()): self.findings.append((rule, site, fn, msg, list(trace)))
    def need_count(self, k, n=1):
        if self.counts.get(k, 0) < n: raise AnalysisError("analysis is vacuous: %d instances of '%s', expected at least %d" % (self.counts.get(k, 0), k, n))

def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("status") == "known"]

def main(pid):
    t0 = time.time(); os.makedirs(EVID, exist_ok=True)
    c = Ctx(pid); rc = 0; err = None
    try:
        mod = importlib.import_module("props." + pid)
        mod.run(c)
    except AnalysisError as x: err = "analysis error: %s" % x
    except Exception: err = "internal error: " + traceback.format_exc()
    ks = [k for k in known() if k["property"] == pid]
    new = []
    for f in c.findings:
        for k in ks:
            if f[0] == k["rule"] and f[2] == k["function"] and k["match"] in f[3]:
                print("KNOWN-FINDING: property=%s %s (%s, %s)" % (pid, k["what"], f[1], f[2])); break
        else: new.append(f)
    seen = set(); new = [f for f in new if f[:4] not in seen and not seen.add(f[:4])]
    if new:
        rp = os.path.join(EVID, "%s.violation.txt" % pid)
        with open(rp, "w") as fh:
            for rule, site, fn, msg, tr in new:
                fh.write("property %s\nrule     %s\nat       %s  (function %s)\nwhat     %s\n" % (pid, rule, site, fn, msg))
                if tr:
                    fh.write("path (last %d of %d steps):\n" % (min(len(tr), 60), len(tr)))
                    for l in tr[-60:]: fh.write("    %s\n" % l)
                fh.write("\n")
        for rule, site, fn, msg, tr in new[:12]: print("  %s at %s in %s: %s" % (rule, site, fn, msg))
        if len(new) > 12: print("  ... and %d more" % (len(new) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
        rc = 1
    elif err:
        print(err, file=sys.stderr); rc = 2
    if err and rc == 1: print(err, file=sys.stderr)
    doc = (getattr(sys.modules.get("props." + pid), "__doc__", None) or "").strip()
    ev = dict(property=pid, tier=c.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", wall_s=round(time.time() - t0, 2),
              coverage=dict(explanation="Static analysis of /repo's current source; rule applied: " + " ".join(doc.split()),
                            repo_head=build.repo_id(), analyses=c.runs, instances=c.counts, rules=c.rules, samples=c.samples[:20],
                            violations=len(new), known_findings=len(c.findings) - len(new), verdict={0: "held", 1: "violated", 2: "no answer"}[rc]))
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    return rc
