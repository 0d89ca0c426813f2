"""What strings are, as expressions over literals and atoms such as <argv2>, <STAGE>, <ent>: kept as tags 't|expr' of the object that holds the string (several tags: alternatives).
Models of the string functions that compute these expressions; byte contents and lengths are not followed."""
from engine import T, add, sub, is_int, neg, Infeasible, syms_of
from models import fresh, format_parts, rd_str, M as BASE
import itertools, re
X = {}
def model(*names):
    def deco(f):
        for n in names: X[n] = f
        return f
    return deco
UNK = "<?>"
def collapse(x):
    """<ent> and <mo> stand for a path of any depth that ends in such an entry"""
    if "<mo>/" in x: x = x.replace("<mo>/", "<ent>/")
    x = re.sub(r"/\.\./.*$", "/../<ent>", x); x = re.sub(r"(?:/\.)+(?=/|$)", "/.", x); x = re.sub(r"(?:<ent>|<mo>)+(<ent>|<mo>)", r"\1", x)
    x = re.sub(r"^(<\?>|<arg:\w+>)(?:/?<(?:ent|mo)>)*/?<(ent|mo)>", r"\1/<\2>", x)
    while 1:
        y = re.sub(r"(^|/)<(?:ent|mo)>/(?=<(?:ent|mo)>)", r"\1", x)
        if y == x: break
        x = y
    return x if x.count("/") < 9 else UNK
def texts(e, st, p):
    """alternatives for the string at p"""
    p = e.norm(st, p)
    if is_int(p): return ()
    b, off = e.base_of(st, p)
    if b is None: return (UNK,)
    o = e.get_obj(st, b); off = e.norm(st, off)
    c = e.cstr(st, p)
    if c is not None: return (c,)
    t = sorted(x[2:] for x in o.tags if x[:2] == "t|")
    if "dirent" in o.tags: off = e.norm(st, sub(off, 19))
    if not t: return (UNK,)
    if off == 0: return tuple(t)
    out = []
    for x in t:
        if is_int(off) and off > 0 and "<" not in x[:off] and len(x) >= off: out.append(x[off:]); continue
        if not is_int(off) and len(off[1]) == 1 and off[1][0][1] == 1:
            n = e.S.name[off[1][0][0]]
            if isinstance(n, tuple) and n[0] == "rchr/" and off[0] == 1:
                k = x.rfind("/")
                if k >= 0 and not x[k + 1:].startswith("<arg") : out.append(x[k + 1:]); continue
                if x.startswith("<arg:") and k < 0: out.append("<last:" + x[5:]); continue
            if isinstance(n, tuple) and n[0] == "len-" and x.endswith(">") is False and 0 < n[1] <= len(x) and off[0] == 0: out.append(x[-n[1]:]); continue
        out.append(UNK)
    return tuple(sorted(set(out)))
def set_text(e, st, p, alts):
    b, off = e.base_of(st, p)
    if b is None: return
    o = e.get_obj(st, b)
    if o.kind in ("const", "fn"): return
    if e.norm(st, off) != 0: alts = (UNK,)
    n = o.copy(); n.cells = {}; n.fill = "?"; n.zero = (); n.tags = frozenset(x for x in o.tags if x[:2] != "t|" and not x.startswith("user")) | {"t|" + collapse(x) for x in alts}
    if any(is_user(x) for x in alts): n.tags |= {"user"}
    n.nul = False; st.objs[b] = n
def is_user(x): return "<arg" in x or "<last" in x or "<ent>" in x or "<mo>" in x or "<?" in x
def combine(parts):
    n = 1
    for p in parts: n *= max(1, len(p))
    if n > 12: return (UNK,)
    return tuple(sorted({"".join(c) for c in itertools.product(*parts)}))
def formatted(e, st, fmtp, args, i):
    fmt = e.cstr(st, fmtp)
    if fmt is None: return None
    out = []
    for p in format_parts(e, st, fmt, args, i):
        if isinstance(p, str): out.append((p,))
        elif p[2] == "s": out.append(texts(e, st, p[1]) or ("(null)",))
        elif p[2] in "diu": out.append(("<num>",))
        else: out.append((UNK,))
    return combine(out)
@model("snprintf", "sprintf")
def _(e, st, a, i):
    s = i["callee"][1] == "snprintf"
    t = formatted(e, st, a[2 if s else 1], a[3 if s else 2:], i)
    hook = getattr(e.monitor, "on_text", None)
    if s and e.opts.get("truncation"):
        n = st.fork(); e.note(n, i, "the text is too long and is cut off"); set_text(e, n, a[0], ("<cut>",)); v = fresh(e, ("cut",), lo=0, hi=2**31 - 1)
        out = []
        set_text(e, st, a[0], t or (UNK,)); w = fresh(e, ("fit",), lo=0, hi=2**31 - 1)
        try: e.assume_ge0(st, sub(sub(a[1], w), 1)); out.append((st, w))
        except Infeasible: pass
        try: e.assume_ge0(n, sub(v, a[1])); out.append((n, v))
        except Infeasible: pass
        return out
    set_text(e, st, a[0], t or (UNK,))
    return [(st, fresh(e, ("formatted",), lo=0, hi=2**31 - 1))]
@model("strcpy", "stpcpy")
def _(e, st, a, i): set_text(e, st, a[0], texts(e, st, a[1]) or (UNK,)); return [(st, a[0])]
@model("strcat")
def _(e, st, a, i): set_text(e, st, a[0], combine((texts(e, st, a[0]), texts(e, st, a[1])))); return [(st, a[0])]
@model("strncpy", "strncat")
def _(e, st, a, i): set_text(e, st, a[0], (UNK,)); return [(st, a[0])]
@model("strdup")
def _(e, st, a, i):
    if not texts(e, st, a[0]): return []
    o = e.new_obj(st, "heap", fresh(e, ("dupsize",), lo=1), "?", ("strdup", e.site(i))); p = T(o)
    set_text(e, st, p, texts(e, st, a[0])); return [(st, p)]
def last_char(e, st, x):
    """value of the last byte of the text x: a constant, or something that is no slash"""
    if not x: return None
    if x[-1] != ">": return ord(x[-1])
    v = fresh(e, ("lastchar",), lo=-128, hi=127)
    if x.endswith("<?>") or x.endswith("<cut>") or x[x.rfind("<"):].startswith("<arg"): return v
    e.assume_ne0(st, sub(v, 47)); return v
@model("strlen")
def _(e, st, a, i):
    t = texts(e, st, a[0])
    if not t: return []
    if len(t) == 1 and "<" not in t[0]: return [(st, len(t[0]))]
    L = fresh(e, ("strlen",), lo=0 if all(x[:1] == "<" for x in t) else 1, hi=2**31 - 1)
    if len(t) == 1:
        b, off = e.base_of(st, a[0]); o = e.get_obj(st, b)
        v = last_char(e, st, t[0])
        if o.kind not in ("const", "fn") and v is not None: n = o.same(); n.cells[e.norm(st, add(off, sub(L, 1)))] = (1, v); st.objs[b] = n
    return [(st, L)]
def match(x, lit, fold):
    """does the text x equal the literal: True, False or None (unknown)"""
    f = (lambda s: s.lower()) if fold else (lambda s: s)
    if "<" not in x: return f(x) == f(lit)
    if x in ("<ent>", "<mo>") and lit in (".", ".."): return False
    if x in ("<ent>", "<mo>") and "/" in lit: return False
    if x == "<ent>" and lit.lower().endswith(".mo"): return False
    if x == "<mo>" and not lit.lower().endswith(".mo"): return False
    if x == "<ext>" and lit.lower() == ".mo": return False
    if x == "<arg:encrypt>" and lit.lower() == "true": return False
    return None
@model("strcmp", "strcasecmp", "strncmp", "strncasecmp")
def _(e, st, a, i):
    nm = i["callee"][1]; fold = "case" in nm
    t, u = texts(e, st, a[0]), texts(e, st, a[1])
    if not t or not u: return []
    if nm.startswith("strn"):
        n = st.fork(); v = fresh(e, (nm,), lo=-255, hi=255); e.assume_ne0(n, v); return [(st, 0), (n, v)]
    eqs = set()
    for x in t:
        for y in u:
            if "<" in x and "<" in y: eqs.add(None)
            else: eqs.add(match(x, y, fold) if "<" not in y else match(y, x, fold))
    out = []; v = fresh(e, (nm,), lo=-255, hi=255)
    if eqs == {True}: out = [(st, 0)]
    elif eqs == {False}: e.assume_ne0(st, v); out = [(st, v)]
    else:
        n = st.fork(); e.assume_ne0(n, v)
        lit = t[0] if len(t) == 1 and "<" not in t[0] else u[0] if len(u) == 1 and "<" not in u[0] else None
        if lit is not None and not fold:
            p, alts = (a[1], u) if t == (lit,) else (a[0], t)
            b, off = e.base_of(st, p); o = e.get_obj(st, b)
            if o.kind not in ("const", "fn"):
                m = o.same(); m.tags = frozenset(x for x in o.tags if x[:2] != "t|") | {"t|" + lit}; st.objs[b] = m
                rest = [x for x in alts if match(x, lit, fold) is not True]
                if rest: m = o.same(); m.tags = frozenset(x for x in o.tags if x[:2] != "t|") | {"t|" + x for x in rest}; n.objs[b] = m
        if lit is not None: e.note(st, i, "the name is %r" % lit); e.note(n, i, "the name is not %r" % lit)
        e.monitor.on_cmp(e, st, a[0], a[1], None, True, i); e.monitor.on_cmp(e, n, a[0], a[1], None, False, i)
        out = [(st, 0), (n, v)]
    return out
@model("strchr", "strrchr", "strstr")
def _(e, st, a, i):
    nm = i["callee"][1]; t = texts(e, st, a[0])
    if not t: return []
    nd = chr(e.norm(st, a[1]) & 255) if nm != "strstr" and is_int(e.norm(st, a[1])) else e.cstr(st, a[1]) if nm == "strstr" else None
    out = []
    b, off = e.base_of(st, a[0])
    for x in t:
        s = st.fork()
        if len(t) > 1 and b is not None:
            o = e.get_obj(s, b)
            if o.kind not in ("const", "fn"): m = o.same(); m.tags = frozenset(y for y in o.tags if y[:2] != "t|") | {"t|" + x}; s.objs[b] = m
        if nd == "." and nm == "strrchr" and x == "<mo>":
            for ext in (".mo", ".mO"):
                w = s.fork(); o = e.new_obj(w, "heap", 4, "?", ("ext", ext)); n = e.get_obj(w, o).same()
                for k, ch in enumerate(ext): n.cells[k] = (1, ord(ch))
                n.cells[3] = (1, 0); w.objs[o] = n; out.append((w, T(o)))
            continue
        if nd == "." and nm == "strrchr" and x == "<ent>":
            w = s.fork(); o = e.new_obj(w, "heap", None, "?", ("ext",)); e.add_tags(w, T(o), {"t|<ext>"}); out += [(s, 0), (w, T(o))]; continue
        if "<" not in x and nd is not None:
            k = x.rfind(nd) if nm == "strrchr" else x.find(nd)
            out.append((s, 0 if k < 0 else add(a[0], k))); continue
        w = s.fork()
        if nd == "/":
            if x in ("<ent>", "<mo>") or x.startswith("<last:"): out.append((s, 0)); continue
            if not (x.startswith("/") or "/" in x) or x == UNK or x.startswith("<arg"):
                if b is not None and x.startswith("<arg:") and x.count("<") == 1:
                    o = e.get_obj(w, b); m = o.same(); m.tags = frozenset(y for y in o.tags if y[:2] != "t|") | {"t|<last:" + x[5:]}; w.objs[b] = m
                if not x.startswith("<STAGE>"): out.append((w, 0))
            out.append((s, add(a[0], fresh(e, ("rchr/" if nm == "strrchr" else "chr/",), lo=0, hi=2**31)))); continue
        out += [(w, 0), (s, add(a[0], fresh(e, (nm,), lo=0, hi=2**31)))]
    return out
class TextHooks:
    """byte-wise changes of a string"""
    def store_byte(self, e, st, p, i):
        b, off = e.base_of(st, p)
        if b is None or b not in st.objs: return
        o = st.objs[b]
        if not any(x[:2] == "t|" for x in o.tags): return
        new = set()
        for x in o.tags:
            if x[:2] == "t|" and x[2:] not in ("<ext>", "<ent>", "<mo>") and not (x[2:].startswith("<arg:") or x[2:].startswith("<last:")): new.add("t|" + UNK)
            else: new.add(x)
        if new != o.tags: n = o.same(); n.tags = frozenset(new); st.objs[b] = n
    def on_copy(self, e, st, d, s, n, i):
        t = texts(e, st, s); set_ = t if len(t) else (UNK,)
        b, off = e.base_of(st, d)
        if b is None: return
        o = e.get_obj(st, b)
        if o.kind in ("const", "fn"): return
        if t and t != (UNK,): m = o.same(); m.tags = frozenset(x for x in o.tags if x[:2] != "t|") | {"t|" + UNK}; st.objs[b] = m
    def access(self, e, st, p, n, write, i):
        if write and i["op"] == "store": self.store_byte(e, st, p, i)
