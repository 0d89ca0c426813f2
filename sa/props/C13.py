"""Message-form and error-code automaton over every path of the executable's session (plain and global-licence build), of every tool API call, of each sending function for each command identifier, and of
mlle_parse_command. Rules: every message written is 'WORD', 'WORD number', 'WORD length' or 'WORD number length' plus line feed, the word is one the protocol defines, in the form the protocol
defines for it, was formatted without being cut off, and is followed by exactly the announced number of bytes; each command identifier stands for the same word in the sending functions as in the parser;
the parser accepts a word only with the number of arguments of its form, takes number and length from the right arguments and refuses negative lengths; the number of an ERROR reply is 1 to 8 and agrees with the event
that caused it (1 not understood, 2 version too low, 4 file not found: FILE or LIB only, 5 tool not allowed: FILE only, 6 file cannot be read, 7 licence manager failed, 8 memory or decryption)."""
import re
from session import *
import toolsess, contracts, models
from models import format_parts
from build import AnalysisError
FORM = dict(NOTSIMPLE="", TOOLS="", YES="", VERSION="n", FEATURE="l", FILE="l", FILECONT="l", LIB="l", LICENSE="l", NO="l", RETURNFEATURE="l", RETURNLICENSE="l", TOOLLIST="l", ERROR="nl")
HEAD = re.compile(r"^([A-Z]{2,})((?: (?:\x01|-?\d+))*)\n$")
class Form:
    """remembers the header being formatted and checks the message when it is written"""
    def formed(self, e, st, dest, size, fmtp, args, rv, i):
        fmt = e.cstr(st, fmtp)
        if fmt is None: return
        s = ""; vals = []
        for p in format_parts(e, st, fmt, args, i):
            if isinstance(p, str): s += p
            else: s += "\x01" if p[2] in "diu" else "\x02"; vals.append(p[1])
        if not re.match(r"[A-Z]{2,}[ \n]|\x02[ \n][^A-Za-z]*$", s): return
        for k in [k for k in st.gval if k.startswith("f:")]: del st.gval[k]
        st.ghost["f"] = s; st.gval["f:p"] = dest; st.gval["f:L"] = rv
        if size is not None: st.gval["f:n"] = size
        for k, v in enumerate(vals): st.gval["f:v%d" % k] = v
        self.ev("headers formatted", i, e)
    def copied(self, e, st, d, n):
        p = st.gval.get("f:p")
        if p is None or "f" not in st.ghost: return
        if e.base_of(st, d)[0] != e.base_of(st, p)[0]: return
        if e.norm(st, sub(d, add(p, add(st.gval["f:L"], st.gval.get("f:d", 0))))) == 0: st.gval["f:d"] = e.norm(st, add(st.gval.get("f:d", 0), n))
    def eq(self, e, st, a, b): return e.norm(st, sub(a, b)) == 0 or (e.ge0(st, sub(a, b)) and e.ge0(st, sub(b, a)))
    def written(self, e, st, p, n, i):
        """-> (word, first number or None)"""
        gv = st.gval
        if "f" not in st.ghost or gv.get("f:p") is None or e.norm(st, sub(p, gv["f:p"])) != 0: return None
        s = st.ghost["f"]; m = HEAD.match(s); show = s.replace("\x01", "<number>").replace("\x02", "<text>").strip()
        self.ev("messages checked: " + (m.group(1) if m else "?"), i, e)
        if not m: e.report(st, "malformed-message", i, "the message '%s' is not a command line" % show); return None
        w, toks = m.group(1), m.group(2).split()
        if w not in FORM: e.report(st, "unknown-word", i, "'%s' is sent, which is no word of the protocol" % w); return None
        if len(toks) != len(FORM[w]): e.report(st, "wrong-form", i, "'%s' is sent with %d numbers, its form has %d" % (w, len(toks), len(FORM[w]))); return None
        nums = []; k = 0
        for t in toks:
            if t == "\x01": nums.append(gv["f:v%d" % k]); k += 1
            else: nums.append(int(t))
        L = gv["f:L"]
        if "f:n" in gv and not e.ge0(st, sub(gv["f:n"], add(L, 1))): e.report(st, "message-cut-off", i, "the header of %s need not fit the buffer it is formatted in" % w)
        D = gv.get("f:d", 0)
        if FORM[w].endswith("l"):
            if not self.eq(e, st, D, nums[-1]): e.report(st, "wrong-length", i, "%s announces %s bytes, %s follow" % (w, e.rng(st, nums[-1]), e.rng(st, D)))
        if not self.eq(e, st, n, add(L, D)): e.report(st, "wrong-size", i, "%s bytes are sent, the %s message has %s" % (e.rng(st, n), w, e.rng(st, add(L, D))))
        return w, (nums[0] if FORM[w].startswith("n") else None)
    def form_post(self, e, st, name, args, rv, i):
        if name == "snprintf": self.formed(e, st, args[0], args[1], args[2], args[3:], rv, i)
        elif name == "sprintf": self.formed(e, st, args[0], None, args[1], args[2:], rv, i)
def _stat(e, st, a, i):
    """a folder, something else, or nothing"""
    out = models.M[i["callee"][1]](e, st, a, i)
    if st.ghost.get("cmd") != "LIB": return out
    res = []
    for s, rv in out:
        if e.compare_const(s, rv, 0) is not True: s.ghost["libbad"] = 1; res.append((s, rv)); continue
        n = s.fork(); e.store(s, add(a[1], 24), 4, 0o040755); e.store(n, add(a[1], 24), 4, 0o100644); e.note(n, i, "not a folder"); n.ghost["libbad"] = 1; s.ghost.pop("libbad", None)
        res += [(s, rv), (n, rv)]
    return res
STAT = dict(stat=_stat, lstat=_stat)
class Lve(Form, Session):
    use = ("msg", "cmd", "trust")
    reset = ("bad", "f")
    def on_copy(self, e, st, d, s, n, i): Session.on_copy(self, e, st, d, s, n, i); self.copied(e, st, d, n)
    def pre(self, e, st, name, args, i):
        if name == "SSL_write":
            r = self.written(e, st, args[1], args[2], i)
            st.ghost.pop("f", None); code = None
            for k in [k for k in st.gval if k.startswith("f:")]: del st.gval[k]
            if r is None:
                t = reply_text(e, st, args[1]); w, num = parse_reply(t)
                if w and w not in FORM: e.report(st, "unknown-word", i, "'%s' is sent, which is no word of the protocol" % w)
                r = (w, num)
            if r[0] == "ERROR": self.error(e, st, r[1], i)
        return None
    def post(self, e, st, name, args, rv, i):
        self.form_post(e, st, name, args, rv, i)
        def bad(k): st.ghost["bad"] = k
        if name.startswith("mlle_license_") and rv is not None and e.compare_const(st, rv, 0) is True:
            bad("licence")
            if st.ghost.get("cmd") == "LIB": st.ghost["licbad"] = 1
        elif name in ("fopen", "stat") and st.ghost.get("cmd") == "FILE" and (e.compare_const(st, rv, 0) is True) == (name == "fopen"): bad("open")
        elif name == "mlle_cr_decrypt" and e.ge0(st, sub(-1, rv)): bad("decrypt")
        elif name == "ferror" and e.compare_const(st, rv, 0) is False: bad("read")
    def on_cmd(self, e, st, word, i): vocabulary(self, e, st, word, i)
    def error(self, e, st, num, i):
        if num is None: return
        g = st.ghost; c = g.get("cmd"); b = "memory" if g.get("allocfail") else g.get("bad"); v = e.norm(st, num)
        lo, hi = e.rng(st, v) if not is_int(v) else (v, v)
        self.ev("error replies: %s, %s: %s" % (c, b, v if is_int(v) else [lo, hi]))
        if lo < 1 or hi > 8: e.report(st, "unassigned-error-code", i, "ERROR %s is sent, the protocol assigns 1 to 8" % (v if is_int(v) else [lo, hi])); return
        if b == "memory": return
        if b == "licence": ok = {7}
        elif b == "open": ok = {4, 6}
        elif b == "read": ok = {6}
        elif b == "decrypt": ok = {8}
        else:
            ok = {1}
            if c == "VERSION": ok = {1, 2}
            elif c in ("FEATURE", "LICENSE"): ok = {1, 3}
            elif c == "LIB": ok = {1, 4}
            elif c == "FILE":
                ok = {1, 4} if g.get("trust") or g.get("libbad") else {1}
                if not g.get("trust"): ok = ok | {5}
                if g.get("licbad"): ok = ok | {7}
        if not is_int(v): self.ev("error replies with an undetermined number"); v = "%d to %d" % (lo, hi); bad = not any(lo <= x <= hi for x in ok)
        else: bad = v not in ok
        if bad: e.report(st, "wrong-error-code", i, "ERROR %s answers %s%s; the protocol assigns %s" % (v, c or "a message that is no command", CAUSE.get(b, ""), " or ".join(str(x) for x in sorted(ok))))
CAUSE = {"licence": " after the licence manager failed", "open": " after the file could not be opened", "read": " after reading the file failed", "decrypt": " after the decryption failed"}
def vocabulary(mon, e, st, word, i):
    if word not in FORM: e.report(st, "unknown-word", i, "'%s' is recognised as a command, the protocol does not define it" % word)
class ToolM(Form, toolsess.Tool):
    use = ("cmd",)
    def on_copy(self, e, st, d, s, n, i): toolsess.Tool.on_copy(self, e, st, d, s, n, i); self.copied(e, st, d, n)
    def pre(self, e, st, name, args, i):
        if name == "SSL_write":
            r = self.written(e, st, args[1], args[2], i)
            w = r[0] if r else parse_reply(reply_text(e, st, args[1]))[0]
            if w and w not in FORM: e.report(st, "unknown-word", i, "'%s' is sent, which is no word of the protocol" % w)
            if r and r[0] == "VERSION": self.ev("version numbers sent")
            st.ghost.pop("f", None)
            for k in [k for k in st.gval if k.startswith("f:")]: del st.gval[k]
        return None
    def post(self, e, st, name, args, rv, i): toolsess.Tool.post(self, e, st, name, args, rv, i); self.form_post(e, st, name, args, rv, i)
    def on_cmd(self, e, st, word, i): vocabulary(self, e, st, word, i)
SCAN = ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf")
class Parser(Session):
    """mlle_parse_command(string, command, error_msg, error_length)"""
    use = ("cmd",)
    def __init__(self): Session.__init__(self); self.ids = {}
    def on_cmd(self, e, st, word, i): vocabulary(self, e, st, word, i)
    def post(self, e, st, name, args, rv, i):
        if name in ("strtok", "strtok_r") and e.cstr(st, args[1]) == " " and e.compare_const(st, rv, 0) is False:
            k = st.ghost.get("ntok", 0); st.ghost["ntok"] = min(k + 1, 9); st.gval["t:%d" % min(k, 9)] = rv
        v = None
        if name in SCAN and e.rng(st, rv)[0] >= 1: v = e.load(st, args[2], 8, ["i", 64], i)
        elif name in ("strtol", "strtoll", "atoi", "atol") and not is_int(rv): v = rv
        if v is not None:
            for k in range(9):
                t = st.gval.get("t:%d" % k)
                if t is not None and e.norm(st, sub(t, args[0])) == 0: st.gval["c:%d" % k] = v
    def leave(self, e, st, name, args, rv):
        if name != "mlle_parse_command": return
        z = e.compare_const(st, rv, 0)
        if z is False: self.ev("parse outcomes: refused"); return
        w = st.ghost.get("cmd"); self.ev("parse outcomes: accepted %s" % w)
        if w not in FORM: e.report(st, "unknown-word-accepted", None, "a message is accepted although its first word was not found to be a command"); return
        p = self.cmd; eq = lambda a, b: e.norm(st, sub(a, b)) == 0 or (e.ge0(st, sub(a, b)) and e.ge0(st, sub(b, a)))
        k = e.norm(st, e.load(st, p, 4, ["i", 32], None)); self.ids.setdefault(w, set()).add(k if is_int(k) else None)
        n = st.ghost.get("ntok"); f = FORM[w]
        if n is None: return
        if n != 1 + len(f): e.report(st, "wrong-argument-count", None, "%s is accepted with %d arguments, its form has %d" % (w, n - 1, len(f))); return
        num = e.load(st, add(p, 8), 8, ["i", 64], None); ln = e.load(st, add(p, 16), 8, ["i", 64], None)
        for j, (x, v, what) in enumerate([(x, num if x == "n" else ln, "number" if x == "n" else "length") for x in f]):
            cv = st.gval.get("c:%d" % (j + 1))
            if cv is None or not eq(v, cv): e.report(st, "wrong-argument", None, "the %s of %s is not taken from argument %d of the message" % (what, w, j + 1))
        if "l" in f and not e.ge0(st, ln): e.report(st, "negative-length-accepted", None, "%s is accepted with a negative length" % w)
def parser(c, prog):
    m = Parser()
    def args(e, st, a):
        s = e.new_obj(st, "ext", None, "?", ("message",), frozenset({"peer"})); x = e.get_obj(st, s).same(); x.nul = True; st.objs[s] = x
        k = e.new_obj(st, "ext", 32, "?", ("command",)); m.cmd = T(k)
        a[0] = T(s); a[1] = m.cmd; return a
    c.analyse(prog, "mlle_parse_command", m, [], args, opts=dict(max_parts=600))
    seen = {}
    for w in FORM:
        if not m.ids.get(w): c.report("word-not-recognised", "mlle_parse_command", "mlle_parse_command", "no message with the command word %s is accepted (%s)" % (w, prog))
        for k in m.ids.get(w, ()):
            if k in seen: c.report("ambiguous-identifier", "mlle_parse_command", "mlle_parse_command", "%s and %s are both turned into command %s" % (seen[k], w, k))
            seen[k] = w
    return m.ids
def run(c):
    a = parser(c, "lve"); b = parser(c, "tool")
    c.need_count("parse outcomes: refused")
    for w in FORM:
        if a.get(w) != b.get(w): c.report("different-identifier", "mlle_parse_command", "mlle_parse_command", "%s means command %s to the executable and %s to the tool library" % (w, a.get(w), b.get(w)))
    for api in toolsess.API:
        m = ToolM(); m.api = api
        c.analyse("tool", api, m, [contracts.DIAG], toolsess.setup(m), opts=SESSION_OPTS, need=("SSL_write", "SSL_read"))
    for prog in ("lve", "lve_glob"):
        m = Lve()
        c.analyse(prog, "main", m, [contracts.CR, contracts.DIAG, STAT], session_args, opts=dict(SESSION_OPTS, alloc_fail=prog == "lve", track_allocfail=True), need=("SSL_write", "SSL_read"))
    if not c.counts.get("error replies: VERSION, None: 2"): c.report("wrong-error-code", "main", "main", "no VERSION message is answered with ERROR 2 (version too low)")
    for k in ("error replies: None, None: 1", "error replies: FILE, open: 6", "error replies: FEATURE, licence: 7", "headers formatted"): c.need_count(k)
