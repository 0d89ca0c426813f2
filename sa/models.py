"""Models of libc and OpenSSL calls: outcome classes and effects. No call is executed."""
import re
from engine import T, add, sub, neg, scale, is_int, INF, Infeasible, Obj, syms_of, Crash
M = {}
def model(*names):
    def deco(f):
        for n in names: M[n] = f
        return f
    return deco

# ---------------------------------------------------------------- helpers
def fresh(e, nm, **kw): return e.fresh(nm, **kw)
def ext_ptr(e, name, tags=()): return T(e.S.new(("h", name), ptr=True, lo=4096, tags=tags))
def fork_ptr(e, st, i, name, null_note=None, tags=()):
    """NULL or a fresh non-null opaque handle"""
    n = st.fork(); e.note(n, i, "%s fails (NULL)" % name)
    return [(st, ext_ptr(e, name, tags)), (n, 0)]
def fork_int(e, st, i, name, ok=1, bad=(0,)):
    out = []
    for b in bad:
        n = st.fork(); e.note(n, i, "%s fails (%s)" % (name, b)); out.append((n, b))
    return [(st, ok)] + out
def bounds(e, st, p, n, write, i, what):
    """tell the monitor about an n-byte access at p"""
    if e.monitor: e.monitor.access(e, st, p, n, write, i)
    p = e.norm(st, p)
    if is_int(p) and 0 <= p < 4096 and e.ge0(st, sub(n, 1)): raise Crash()
def obj_at(e, st, p):
    b, off = e.base_of(st, p)
    return (None if b is None else e.get_obj(st, b)), b, off

def strlen_of(e, st, p):
    c = e.cstr(st, p)
    if c is not None: return len(c)
    o, b, off = obj_at(e, st, p)
    if b is None: return fresh(e, ("strlen?",), lo=0)
    if o.kind == "const": return T(e.S.memoed(("strlenc", b, off), lo=0))
    off = e.norm(st, off)
    if off in o.slen: return e.norm(st, o.slen[off])
    v = fresh(e, ("strlen",), lo=0)
    n = o.same(); n.slen[off] = v; st.objs[b] = n
    try:
        if o.size is not None and not is_ext(o): e.assume_ge0(st, sub(sub(o.size, off), add(v, 1)))
        for k, (sz, cv) in o.cells.items():
            if sz == 1 and e.norm(st, cv) == 0 and e.ge0(st, sub(k, off)): e.assume_ge0(st, sub(sub(k, off), v))
    except Infeasible: pass
    return v
def is_ext(o): return o.kind == "ext"
def set_strlen(e, st, p, v):
    o, b, off = obj_at(e, st, p)
    if b is None or o.kind in ("const", "fn"): return
    n = o.same(); n.slen[e.norm(st, off)] = v; n.nul = True; st.objs[b] = n
def has_nul(e, st, p):
    """is the object p points into known to contain a NUL at or after p"""
    o, b, off = obj_at(e, st, p)
    if b is None: return False
    if o.kind in ("const",): return True
    if o.kind == "ext": return "notnul" not in o.tags
    if o.nul == "last" and o.size is not None: return e.ge0(st, sub(sub(o.size, 1), off))
    if o.nul: return True
    if o.fill == "z" and o.size is not None:
        return True
    for k, (sz, cv) in o.cells.items():
        if e.norm(st, cv) == 0 and e.ge0(st, sub(k, off)): return True
    for z in o.zero:
        if e.ge0(st, sub(z[1] - 1, off)): return True
    return False
def rd_str(e, st, p, i, printed=False):
    """string read at p: pointer must be valid and terminated"""
    if e.monitor: e.monitor.str_read(e, st, p, i)
    p = e.norm(st, p)
    if is_int(p) and 0 <= p < 4096 and not printed: raise Crash()     # %s of NULL prints (null)

# ---------------------------------------------------------------- allocation
def alloc(e, st, i, size, fill, what):
    s = e.new_obj(st, "heap", size, fill, (what, e.site(i)))
    out = [(st, T(s))]
    if e.opts["alloc_fail"]:
        n = st.fork(); del n.objs[s]; e.note(n, i, "%s fails (NULL)" % what)
        if e.opts.get("track_allocfail"): n.ghost["allocfail"] = 1
        out.append((n, 0))
    return out
@model("malloc")
def _(e, st, a, i): return alloc(e, st, i, a[0], "u", "malloc")
@model("calloc")
def _(e, st, a, i):
    n = scale(a[0], a[1]) if is_int(a[1]) else (scale(a[1], a[0]) if is_int(a[0]) else fresh(e, ("calloc",), lo=0))
    return alloc(e, st, i, n, "z", "calloc")
@model("realloc")
def _(e, st, a, i):
    o, b, off = obj_at(e, st, a[0])
    r = alloc(e, st, i, a[1], "u", "realloc")
    s2, p = r[0]
    if b is not None and o is not None:
        nb = p[1][0][0]; m = Obj("heap", a[1], "?", s2.objs[nb].name, dict(o.cells), o.tags, False, (), None, o.nul is True and o.size is not None and e.ge0(s2, sub(a[1], o.size)))
        s2.objs[nb] = m; ini = o.slen.get(-1, 0 if o.fill == "u" else o.size)
        if o.kind == "heap" and s2.objs[nb].fill != "u" and (-1 in o.slen or o.fill == "u") and ini is not None:
            m.slen[-1] = ini if e.ge0(s2, sub(a[1], ini)) else 0
        if b in s2.objs:
            d = s2.objs[b].same(); d.freed = True; s2.objs[b] = d
    return r
@model("free", "CRYPTO_free")
def _(e, st, a, i):
    p = e.norm(st, a[0])
    b, off = e.base_of(st, p)
    if e.monitor: e.monitor.on_free(e, st, p, i)
    if b is not None and b in st.objs:
        o = st.objs[b]; st.objs[b] = Obj(o.kind, o.size, "?", o.name, None, o.tags, True)
    return [(st, None)]

# ---------------------------------------------------------------- memory
@model("llvm.memset.p0.i64", "memset", "OPENSSL_cleanse", "explicit_bzero")
def _(e, st, a, i):
    if i["callee"][1] in ("OPENSSL_cleanse", "explicit_bzero"): a = [a[0], 0, a[1]]
    bounds(e, st, a[0], a[2], True, i, "memset")
    e.memset(st, a[0], a[1], a[2], i); return [(st, a[0])]
@model("llvm.memcpy.p0.p0.i64", "memcpy", "memmove", "llvm.memmove.p0.p0.i64")
def _(e, st, a, i):
    bounds(e, st, a[1], a[2], False, i, "memcpy"); bounds(e, st, a[0], a[2], True, i, "memcpy")
    if e.monitor: e.monitor.on_copy(e, st, a[0], a[1], a[2], i)
    e.memcpy(st, a[0], a[1], a[2], i); return [(st, a[0])]
@model("memcmp", "CRYPTO_memcmp")
def _(e, st, a, i):
    bounds(e, st, a[0], a[2], False, i, "memcmp"); bounds(e, st, a[1], a[2], False, i, "memcmp")
    n = st.fork(); v = fresh(e, ("memcmp",)); e.assume_ne0(n, v)
    e.note(st, i, "memcmp equal"); e.note(n, i, "memcmp differs")
    if e.monitor: e.monitor.on_cmp(e, st, a[0], a[1], a[2], True, i); e.monitor.on_cmp(e, n, a[0], a[1], a[2], False, i)
    return [(st, 0), (n, v)]
@model("memchr")
def _(e, st, a, i):
    bounds(e, st, a[0], a[2], False, i, "memchr")
    n = st.fork(); k = fresh(e, ("memchr",), lo=0)
    out = [(n, 0)]
    try:
        e.assume_ge0(st, sub(add(a[2], -1), k)); out.append((st, add(a[0], k)))
    except Infeasible: pass
    return out

# ---------------------------------------------------------------- strings
@model("strlen")
def _(e, st, a, i): rd_str(e, st, a[0], i); return [(st, strlen_of(e, st, a[0]))]
def _cmp(e, st, a, i, name, fold=False, n=None):
    rd_str(e, st, a[0], i); rd_str(e, st, a[1], i)
    x, y = e.cstr(st, a[0]), e.cstr(st, a[1])
    if x is not None and y is not None:
        if fold: x, y = x.lower(), y.lower()
        if n is not None: x, y = x[:n], y[:n]
        return [(st, 0 if x == y else (1 if x > y else -1))]
    if e.norm(st, a[0]) == e.norm(st, a[1]): return [(st, 0)]
    m = st.fork(); v = fresh(e, (name,), lo=-255, hi=255); e.assume_ne0(m, v)
    if e.monitor:
        k = a[2] if len(a) > 2 else None
        e.monitor.on_cmp(e, st, a[0], a[1], k, True, i); e.monitor.on_cmp(e, m, a[0], a[1], k, False, i)
    lit = x if x is not None else y
    e.note(st, i, "%s: equal%s" % (name, "" if lit is None else " to %r" % lit)); e.note(m, i, "%s: differs%s" % (name, "" if lit is None else " from %r" % lit))
    return [(st, 0), (m, v)]
@model("strcmp")
def _(e, st, a, i): return _cmp(e, st, a, i, "strcmp")
@model("strcasecmp")
def _(e, st, a, i): return _cmp(e, st, a, i, "strcasecmp", True)
@model("strncmp", "strncasecmp")
def _(e, st, a, i): return _cmp(e, st, a, i, "strncmp", i["callee"][1] == "strncasecmp", a[2] if is_int(a[2]) else None)
def _find(e, st, a, i, name):
    rd_str(e, st, a[0], i)
    if name == "strstr": rd_str(e, st, a[1], i)
    c = e.cstr(st, a[0])
    if c is not None:
        needle = e.cstr(st, a[1]) if name == "strstr" else (chr(a[1] & 255) if is_int(a[1]) else None)
        if needle is not None:
            k = c.rfind(needle) if name == "strrchr" else c.find(needle)
            return [(st, 0 if k < 0 else add(a[0], k))]
    L = strlen_of(e, st, a[0])
    n = st.fork(); k = fresh(e, (name,), lo=0)
    if e.monitor:
        nd = e.cstr(st, a[1]) if name == "strstr" else None
        if nd: e.monitor.on_absent(e, n, a[0], nd, i)
    out = [(n, 0)]
    try:
        e.assume_ge0(st, sub(sub(L, k), 1)); out.append((st, add(a[0], k)))
    except Infeasible: pass
    return out
@model("strchr")
def _(e, st, a, i): return _find(e, st, a, i, "strchr")
@model("strrchr")
def _(e, st, a, i): return _find(e, st, a, i, "strrchr")
@model("strstr")
def _(e, st, a, i): return _find(e, st, a, i, "strstr")
@model("strspn", "strcspn", "strnlen")
def _(e, st, a, i):
    v = fresh(e, ("span",), lo=0)
    try:
        if i["callee"][1] == "strnlen": e.assume_ge0(st, sub(a[1], v))
        else: rd_str(e, st, a[0], i); e.assume_ge0(st, sub(strlen_of(e, st, a[0]), v))
    except Infeasible: return []
    return [(st, v)]
@model("strdup", "strndup")
def _(e, st, a, i):
    rd_str(e, st, a[0], i)
    L = strlen_of(e, st, a[0])
    if i["callee"][1] == "strndup": L2 = fresh(e, ("ndup",), lo=0); e.assume_ge0(st, sub(a[1], L2)); L = L2
    src, b, off = obj_at(e, st, a[0]); c = e.cstr(st, a[0])
    res = alloc(e, st, i, add(L, 1), "?", "strdup")
    s, p = res[0]; ob = p[1][0][0]
    o = s.objs[ob].copy(); o.tags = src.tags if src else frozenset(); o.nul = True
    if c is not None and len(c) < 128:
        for k, ch in enumerate(c): o.cells[k] = (1, ord(ch) if ord(ch) < 128 else ord(ch) - 256)
        o.cells[len(c)] = (1, 0)
    else: o.slen = {0: L}
    s.objs[ob] = o
    return res
@model("strcpy", "strcat", "stpcpy")
def _(e, st, a, i):
    rd_str(e, st, a[1], i)
    L = strlen_of(e, st, a[1]); nm = i["callee"][1]
    d = a[0]
    if nm == "strcat": d = add(a[0], strlen_of(e, st, a[0]))
    if e.monitor: e.monitor.on_strcpy(e, st, d, a[1], L, i)
    bounds(e, st, d, add(L, 1), True, i, nm)
    c = e.cstr(st, a[1])
    b, off = e.base_of(st, d)
    if b is not None:
        e.havoc_range(st, b, off, add(L, 1), e.tags_of(st, a[1]))
        if c is not None and len(c) < 200:
            for k, ch in enumerate(c + "\0"): e.store(st, add(d, k), 1, ord(ch))
        set_strlen(e, st, d, L) if nm != "strcat" else None
        if nm == "strcat":
            o = e.get_obj(st, b)
            if o.kind not in ("const", "fn"): m = o.same(); m.nul = True; st.objs[b] = m
    return [(st, a[0])]
@model("strncpy", "strncat")
def _(e, st, a, i):
    rd_str(e, st, a[1], i)
    bounds(e, st, a[0], a[2], True, i, "strncpy")
    b, off = e.base_of(st, a[0])
    if b is not None: e.havoc_range(st, b, off, a[2], e.tags_of(st, a[1]))
    return [(st, a[0])]
@model("strtok_r")
def _(e, st, a, i):
    p = e.norm(st, a[0])
    out = []
    alts = [(st, p)]
    if not (is_int(p) and p == 0):
        if not is_int(p) and e.rng(st, p)[0] <= 0:
            alts = [(s, p if v else 0) for s, v in e.compare(st, "ne", p, 0)]
    for s, q in alts:
        if is_int(q) and q == 0: q = e.load(s, a[2], 8, ["p", 64], i)
        else: rd_str(e, s, q, i)
        b, off = e.base_of(s, q)
        n = s.fork(); e.store(n, a[2], 8, q); out.append((n, 0))
        if b is None: out.append((s, T(e.S.new(("tok",), ptr=True, lo=4096)))); continue
        L = strlen_of(e, s, q); k = fresh(e, ("tok",), lo=0)
        try: e.assume_ge0(s, sub(sub(L, k), 1))
        except Infeasible: continue
        tokp = add(q, k); o = e.get_obj(s, b)
        if o.kind not in ("const", "fn"):
            m = o.copy(); m.cells = {kk: c for kk, c in m.cells.items() if e.norm(s, c[1]) == 0}; m.nul = True
            if m.fill == "z": m.fill = "?"
            s.objs[b] = m
        k2 = fresh(e, ("toknext",), lo=0)
        try: e.assume_ge0(s, sub(sub(L, k), k2))
        except Infeasible: continue
        e.store(s, a[2], 8, add(tokp, k2))
        out.append((s, tokp))
    return out
@model("tolower", "toupper", "isspace", "isalnum", "isdigit", "isalpha")
def _(e, st, a, i):
    if is_int(a[0]) and i["callee"][1] in ("tolower", "toupper"):
        c = chr(a[0] & 255); return [(st, ord(c.lower() if i["callee"][1] == "tolower" else c.upper()))]
    return [(st, T(e.S.memoed((i["callee"][1], e.norm(st, a[0])), lo=-128, hi=255)))]
@model("strtol", "strtoul", "strtoll", "atoi", "atol")
def _(e, st, a, i):
    rd_str(e, st, a[0], i)
    v = fresh(e, ("strtol",))
    if i["callee"][1].startswith("strto") and not is_int(e.norm(st, a[1])):
        n = st.fork(); e.note(n, i, "no number found"); e.store(n, a[1], 8, a[0])          # the value 0 as a constant means: nothing converted
        k = fresh(e, ("end",), lo=1); L = strlen_of(e, st, a[0])
        try: e.assume_ge0(st, sub(L, k))
        except Infeasible: return [(n, 0)]
        e.store(st, a[1], 8, add(a[0], k))
        return [(st, v), (n, 0)]
    return [(st, v)]

# ---------------------------------------------------------------- formatted output
_fmt = re.compile(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXcsp%eEfgG])")
def format_parts(e, st, fmt, args, i):
    """-> (list of pieces: str | (lenterm, value, conv)), or None for an unknown format"""
    out = []; pos = 0; ai = 0
    for m in _fmt.finditer(fmt):
        if m.start() > pos: out.append(fmt[pos:m.start()])
        pos = m.end(); c = m.group(5)
        if c == "%": out.append("%"); continue
        if m.group(2) == "*": ai += 1
        prec = m.group(3)
        pv = None
        if prec == "*":
            pv = args[ai] if ai < len(args) else None; ai += 1
        elif prec is not None: pv = int(prec)
        v = e.norm(st, args[ai]) if ai < len(args) else fresh(e, ("noarg",)); ai += 1
        if c == "s":
            if prec is None: rd_str(e, st, v, i, True)
            s = e.cstr(st, v)
            if s is not None and pv is None and m.group(2) is None: out.append(s)
            else:
                L = strlen_of(e, st, v)
                if pv is not None:
                    L2 = fresh(e, ("prec",), lo=0)
                    try:
                        e.assume_ge0(st, sub(pv, L2)); e.assume_ge0(st, sub(L, L2)) if prec is not None and False else None
                    except Infeasible: pass
                    L = L2
                out.append((L, v, "s"))
        elif c in "di" or c in "u":
            if is_int(v) and m.group(2) is None: out.append(str(v))
            else:
                lo = 2 if (not is_int(v) and e.rng(st, v)[1] < 0) else 1
                mx = 11 if not m.group(4) else 20
                out.append((fresh(e, ("digits",), lo=lo, hi=mx), v, c))
        elif c == "c":
            if is_int(v): out.append(chr(v & 255))
            else: out.append((1, v, c))
        else: out.append((fresh(e, ("fmt",), lo=1, hi=64), v, c))
    if pos < len(fmt): out.append(fmt[pos:])
    # merge adjacent literals
    res = []
    for p in out:
        if isinstance(p, str) and res and isinstance(res[-1], str): res[-1] += p
        else: res.append(p)
    return res
def do_format(e, st, d, n, fmtp, args, i):
    """write a formatted string at d (size limit n or None); -> length term"""
    fmt = e.cstr(st, fmtp)
    if fmt is None:
        rd_str(e, st, fmtp, i)
        L = fresh(e, ("fmtlen",), lo=0); parts = [(L, fmtp, "?")]
    else: parts = format_parts(e, st, fmt, args, i)
    L = 0; tags = frozenset()
    for p in parts:
        if isinstance(p, str): L = add(L, len(p))
        else:
            L = add(L, p[0])
            if p[2] in "s?": tags |= e.tags_of(st, p[1])
            elif not is_int(p[1]):
                for s in syms_of(p[1]): tags |= e.S.tags[s]
    if d is not None:
        b, off = e.base_of(st, d)
        if b is not None:
            if n is None:
                bounds(e, st, d, add(L, 1), True, i, "sprintf"); e.havoc_range(st, b, off, add(L, 1), tags)
            else:
                # writes min(L+1, n) bytes
                if e.ge0(st, sub(n, add(L, 1))): bounds(e, st, d, add(L, 1), True, i, "snprintf")
                else: bounds(e, st, d, n, True, i, "snprintf")
                e.havoc_range(st, b, off, n, tags)
            lit = parts[0] if parts and isinstance(parts[0], str) else ""
            whole = len(parts) == 1 and isinstance(parts[0], str) or not parts
            for k, ch in enumerate(lit[:160]):
                if n is None or e.ge0(st, sub(n, k + 2)): e.store(st, add(d, k), 1, ord(ch) if ord(ch) < 128 else ord(ch) - 256)
            if whole and len(lit) <= 160 and (n is None or e.ge0(st, sub(n, len(lit) + 1))): e.store(st, add(d, len(lit)), 1, 0)
            o = e.get_obj(st, b)
            if o.kind not in ("const", "fn"):
                o = o.same(); o.nul = True
                if n is None or e.ge0(st, sub(n, add(L, 1))): o.slen[e.norm(st, off)] = L
                st.objs[b] = o
    return L
@model("snprintf")
def _(e, st, a, i):
    if e.monitor: e.monitor.on_format(e, st, a[0], a[2], a[3:], i)
    return [(st, do_format(e, st, a[0], a[1], a[2], a[3:], i))]
@model("sprintf")
def _(e, st, a, i):
    if e.monitor: e.monitor.on_format(e, st, a[0], a[1], a[2:], i)
    return [(st, do_format(e, st, a[0], None, a[1], a[2:], i))]
@model("vsnprintf")
def _(e, st, a, i):
    b, off = e.base_of(st, a[0])
    if b is not None:
        bounds(e, st, a[0], a[1], True, i, "vsnprintf"); e.havoc_range(st, b, off, a[1])
        o = e.get_obj(st, b).same(); o.nul = True; st.objs[b] = o
    return [(st, fresh(e, ("vsnprintf",), lo=0))]
@model("asprintf", "vasprintf")
def _(e, st, a, i):
    L = do_format(e, st, None, None, a[1], a[2:] if i["callee"][1] == "asprintf" else [], i)
    out = []
    for s, p in alloc(e, st, i, add(L, 1), "?", "asprintf"):
        if is_int(p): e.store(s, a[0], 8, 0); out.append((s, -1)); continue
        if e.monitor and i["callee"][1] == "asprintf": e.monitor.on_format(e, s, p, a[1], a[2:], i)
        do_format(e, s, p, add(L, 1), a[1], a[2:], i)
        e.store(s, a[0], 8, p); set_strlen(e, s, p, L); out.append((s, L))
    return out
@model("printf", "fprintf", "puts", "fputs", "putchar", "fputc", "vfprintf", "vprintf", "putc", "perror")
def _(e, st, a, i):
    nm = i["callee"][1]
    if nm in ("printf", "fprintf"):
        k = 0 if nm == "printf" else 1
        do_format(e, st, None, None, a[k], a[k + 1:], i)
    elif nm in ("puts", "fputs"): rd_str(e, st, a[0], i)
    return [(st, fresh(e, (nm,), lo=0))]
@model("__isoc99_sscanf", "sscanf", "__isoc23_sscanf")
def _(e, st, a, i):
    rd_str(e, st, a[0], i)
    fmt = e.cstr(st, a[1]) or ""
    convs = re.findall(r"%[^%]*?[a-zA-Z]", fmt)
    out = []
    for r in range(-1, len(a) - 2 + 1):
        n = st.fork()
        for k in range(max(r, 0)):
            sz = 8 if k < len(convs) and convs[k][-2:] in ("ld", "zu", "lu", "zd", "li") else 4
            p = a[2 + k]
            if k < len(convs) and convs[k][-1] in "s[":
                b, off = e.base_of(n, p)
                if b is not None: e.havoc_range(n, b, off, None)
            else:
                v = fresh(e, ("scan",)) if sz == 8 else fresh(e, ("scan",), lo=-2**31, hi=2**31 - 1)
                e.store(n, p, sz, v)
        e.note(n, i, "sscanf converts %d" % r)
        out.append((n, r))
    return out

# ---------------------------------------------------------------- files
@model("fopen")
def _(e, st, a, i):
    rd_str(e, st, a[0], i)
    return fork_ptr(e, st, i, "fopen")
@model("fclose")
def _(e, st, a, i): return [(st, 0)] if not e.opts.get("fclose_fail") else fork_int(e, st, i, "fclose", 0, (-1,))
@model("fread")
def _(e, st, a, i):
    tot = scale(a[1], a[2]) if is_int(a[2]) else scale(a[2], a[1]) if is_int(a[1]) else None
    if tot is not None: bounds(e, st, a[0], tot, True, i, "fread")
    n = fresh(e, ("fread",), lo=0)
    try: e.assume_ge0(st, sub(a[2], n))
    except Infeasible: return []
    b, off = e.base_of(st, a[0])
    if b is not None: e.havoc_range(st, b, off, tot, {"file"})
    return [(st, n)]
@model("fwrite")
def _(e, st, a, i):
    tot = scale(a[1], a[2]) if is_int(a[2]) else scale(a[2], a[1]) if is_int(a[1]) else None
    if tot is not None: bounds(e, st, a[0], tot, False, i, "fwrite")
    n = st.fork(); out = [(st, a[2])]
    v = fresh(e, ("fwrite",), lo=0)
    try: e.assume_ge0(n, sub(add(a[2], -1), v)); e.note(n, i, "fwrite writes less"); out.append((n, v))
    except Infeasible: pass
    return out
@model("ferror", "feof")
def _(e, st, a, i):
    n = st.fork(); v = fresh(e, (i["callee"][1],)); e.assume_ne0(n, v); e.note(n, i, i["callee"][1] + " set")
    return [(st, 0), (n, v)]
@model("getc", "fgetc")
def _(e, st, a, i): return [(st, fresh(e, ("getc",), lo=-1, hi=255))]
@model("stat", "lstat", "fstat")
def _(e, st, a, i):
    if i["callee"][1] != "fstat": rd_str(e, st, a[0], i)
    n = st.fork()
    b, off = e.base_of(st, a[1])
    if b is not None:
        e.havoc_range(st, b, off, 144)
        e.store(st, add(a[1], 48), 8, fresh(e, ("st_size",), lo=0, hi=2**40))
        e.store(st, add(a[1], 24), 4, fresh(e, ("st_mode",), lo=0, hi=0xffff))
    e.note(n, i, "stat fails")
    return [(st, 0), (n, -1)]
@model("fflush", "time", "setvbuf", "rewind", "clearerr")
def _(e, st, a, i): return [(st, None)] if i["ty"][0] == "v" else [(st, fresh(e, (i["callee"][1],)))]
@model("localtime", "ctime", "strerror", "ERR_reason_error_string", "__errno_location", "zip_strerror", "ERR_error_string")
def _(e, st, a, i): return [(st, ext_ptr(e, i["callee"][1]))]
@model("getenv")
def _(e, st, a, i): return fork_ptr(e, st, i, "getenv")
@model("exit", "_exit", "abort", "__assert_fail")
def _(e, st, a, i):
    if e.monitor: e.monitor.on_exit(e, st, a[0] if a and i["callee"][1] in ("exit", "_exit") else 134, i)
    return []
@model("llvm.va_start", "llvm.va_end", "llvm.va_copy", "llvm.va_start.p0", "llvm.va_end.p0", "llvm.va_copy.p0", "llvm.stacksave.p0", "llvm.stackrestore.p0")
def _(e, st, a, i): return [(st, None if i["ty"][0] == "v" else fresh(e, ("va",), ptr=True))]

# ---------------------------------------------------------------- uthash stand-in, key stand-in
@model("__sa_hash_find")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "hash lookup: absent")
    return [(st, ext_ptr(e, "hash_item")), (n, 0)]
@model("__sa_hash_add", "__sa_hash_del")
def _(e, st, a, i): return [(st, ext_ptr(e, "hash_head"))]
@model("__sa_init_key")
def _(e, st, a, i):
    nm = e.cstr(st, a[2]); b, off = e.base_of(st, a[0])
    e.havoc_range(st, b, off, a[1], {"key:" + nm})
    o = st.objs[b].same(); o.nul = True; st.objs[b] = o
    return [(st, None)]

@model("__sa_clear_key")
def _(e, st, a, i):
    """the CLEAR_ macro of a generated key header; how the generator writes it is judged by C11"""
    e.memset(st, a[0], 0, a[1] if e.opts.get("clear_whole", True) else a[2], i); return [(st, None)]
# ---------------------------------------------------------------- OpenSSL
def _arg_tags(e, st, a):
    return e.tags_of(st, a[0]) if a and not is_int(a[0]) else ()
def _ptrs(*names):
    """constructors and getters that may return NULL; the handle inherits the tags of the first argument"""
    for n in names:
        def f(e, st, a, i, n=n): return fork_ptr(e, st, i, n, tags=_arg_tags(e, st, a))
        M[n] = f
def _total_ptrs(*names):
    """getters that do not fail"""
    for n in names:
        def f(e, st, a, i, n=n): return [(st, ext_ptr(e, n))]
        M[n] = f
def _ints(*names):
    for n in names:
        def f(e, st, a, i, n=n): return fork_int(e, st, i, n)
        M[n] = f
def _nops(*names):
    for n in names:
        def f(e, st, a, i, n=n):
            return [(st, None if i["ty"][0] == "v" else fresh(e, (n,)))]
        M[n] = f
_ptrs("SSL_CTX_new", "SSL_new", "BIO_new", "BIO_new_fp", "BIO_new_fd", "BIO_new_mem_buf", "PEM_read_bio_RSAPrivateKey", "X509_new", "EVP_PKEY_new",
      "X509_get_pubkey", "X509_get0_pubkey", "EVP_PKEY_get1_RSA", "EVP_CIPHER_CTX_new", "HMAC_CTX_new", "EVP_PKEY_get0_RSA")
for _n in ("X509_STORE_CTX_get0_cert", "X509_STORE_CTX_get_current_cert", "SSL_get1_peer_certificate", "SSL_get_peer_certificate"):
    M[_n] = lambda e, st, a, i, n=_n: fork_ptr(e, st, i, n, tags=("peercert",))
@model("PEM_write_bio_RSA_PUBKEY", "PEM_write_bio_RSAPublicKey", "PEM_write_bio_PUBKEY")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, i["callee"][1] + " fails")
    e.add_tags(st, a[0], _arg_tags(e, st, a[1:]))
    return [(st, 1), (n, 0)]
_total_ptrs("TLS_client_method", "TLS_server_method", "TLS_method", "BIO_s_mem", "EVP_sha1", "EVP_sha256", "EVP_aes_256_cbc", "X509_get_serialNumber", "X509_get_subject_name",
      "X509_getm_notAfter", "X509_getm_notBefore", "X509_gmtime_adj", "EVP_sha512", "EVP_aes_128_cbc", "EVP_md5", "EVP_sha224", "EVP_sha384", "EVP_aes_256_ctr", "EVP_aes_256_ecb", "EVP_aes_192_cbc", "EVP_aes_256_gcm", "EVP_aes_256_cfb128", "EVP_aes_256_ofb")
_ints("SSL_CTX_set_cipher_list", "SSL_CTX_use_RSAPrivateKey", "SSL_use_certificate", "X509_sign",
      "EVP_DecryptInit_ex", "EVP_EncryptInit_ex", "HMAC_Init_ex", "HMAC_Update", "SSL_use_RSAPrivateKey", "SSL_CTX_use_certificate")
_nops("SSL_CTX_set_verify", "SSL_CTX_set_cert_verify_callback", "SSL_set_bio", "SSL_ctrl", "SSL_set_read_ahead", "SSL_shutdown", "SSL_free", "SSL_CTX_free", "BIO_free",
      "RSA_free", "EVP_PKEY_free", "X509_free", "EVP_PKEY_assign", "ASN1_INTEGER_set", "X509_set_pubkey", "X509_NAME_add_entry_by_txt", "X509_set_issuer_name",
      "OPENSSL_init_ssl", "OPENSSL_init_crypto", "OPENSSL_config", "ERR_get_error", "ERR_peek_error", "EVP_CIPHER_CTX_free", "EVP_CIPHER_CTX_reset", "HMAC_CTX_free", "HMAC_CTX_reset", "SSL_CTX_ctrl", "SSL_set_verify", "ERR_clear_error")
def handle_name(e, st, v):
    """constructor of the opaque handle v"""
    v = e.norm(st, v)
    if is_int(v) or v[0] != 0 or len(v[1]) != 1: return None
    n = e.S.name[v[1][0][0]]
    return n[1] if isinstance(n, tuple) and n[0] == "h" else None
IVLEN = {"ecb": 0, "gcm": 12}
MDLEN = {"EVP_sha1": 20, "EVP_sha224": 28, "EVP_sha256": 32, "EVP_sha384": 48, "EVP_sha512": 64, "EVP_md5": 16}
M["EVP_CIPHER_get_iv_length"] = M["EVP_CIPHER_iv_length"] = lambda e, st, a, i: [(st, IVLEN.get((handle_name(e, st, a[0]) or "")[-3:], 16))]
M["EVP_MD_get_size"] = M["EVP_MD_size"] = lambda e, st, a, i: [(st, MDLEN.get(handle_name(e, st, a[0]), 32))]
@model("SSL_get_shutdown")
def _(e, st, a, i): return [(st, fresh(e, ("shutdown",), lo=0, hi=3))]
@model("SSL_get_error")
def _(e, st, a, i): return [(st, fresh(e, ("sslerr",), lo=0, hi=12))]
@model("SSL_pending")
def _(e, st, a, i): return [(st, fresh(e, ("pending",), lo=0, hi=16384))]
@model("SSL_want")
def _(e, st, a, i): return [(st, fresh(e, ("want",), lo=1, hi=8))]
@model("SSL_read")
def _(e, st, a, i):
    bounds(e, st, a[1], a[2], True, i, "SSL_read")
    n = st.fork(); bad = fresh(e, ("rdfail",), lo=-1, hi=0); e.note(n, i, "SSL_read fails")
    v = fresh(e, ("rd",), lo=1, hi=a[2] if is_int(a[2]) else INF)
    if not is_int(a[2]):
        try: e.assume_ge0(st, sub(a[2], v))
        except Infeasible: return [(n, bad)]
    b, off = e.base_of(st, a[1])
    if b is not None: e.havoc_range(st, b, off, a[2], {"peer"})
    return [(st, v), (n, bad)]
@model("SSL_write")
def _(e, st, a, i):
    bounds(e, st, a[1], a[2], False, i, "SSL_write")
    n = st.fork(); bad = fresh(e, ("wrfail",), lo=-1, hi=0); e.note(n, i, "SSL_write fails")
    if e.opts.get("track_wrfail"): n.ghost["wrfail"] = 1
    v = fresh(e, ("wr",), lo=1)
    if e.opts.get("no_wrfail"): return [(st, v)]
    return [(st, v), (n, bad)]
@model("SSL_accept", "SSL_connect", "SSL_do_handshake")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "handshake fails")
    return [(st, 1), (n, fresh(e, ("hsfail",), lo=-1, hi=0))]
@model("BIO_ctrl", "BIO_int_ctrl")
def _(e, st, a, i):
    v = fresh(e, ("bioctrl",), lo=0, hi=2**30)
    return [(st, v)]
@model("BIO_read")
def _(e, st, a, i):
    bounds(e, st, a[1], a[2], True, i, "BIO_read")
    b, off = e.base_of(st, a[1])
    if b is not None: e.havoc_range(st, b, off, a[2], _arg_tags(e, st, a))
    v = fresh(e, ("bioread",), lo=-2)
    try: e.assume_ge0(st, sub(a[2], v))
    except Infeasible: pass
    return [(st, v)]
@model("RAND_bytes", "RAND_priv_bytes")
def _(e, st, a, i):
    bounds(e, st, a[0], a[1], True, i, "RAND_bytes")
    n = st.fork(); b, off = e.base_of(st, a[0])
    if b is not None: e.havoc_range(st, b, off, a[1], {"rand"})
    e.note(n, i, "RAND_bytes fails")
    m = n.fork()
    return [(st, 1), (n, 0), (m, -1)]
def _crypt(final, tag):
    def f(e, st, a, i):
        n = st.fork(); e.note(n, i, i["callee"][1] + " fails")
        b, off = e.base_of(st, a[1])
        v = fresh(e, ("cryptlen",), lo=0)
        if final:
            st.hi[v[1][0][0]] = 16
        else:
            try: e.assume_ge0(st, sub(add(a[4], 16), v))
            except Infeasible: pass
            bounds(e, st, a[3], a[4], False, i, "crypt input")
        if b is not None:
            e.havoc_range(st, b, off, None, {tag})
        e.store(st, a[2], 4, v)
        return [(st, 1), (n, 0)]
    return f
M["EVP_DecryptUpdate"] = _crypt(False, "plain"); M["EVP_DecryptFinal_ex"] = _crypt(True, "plain")
M["EVP_EncryptUpdate"] = _crypt(False, "cipher"); M["EVP_EncryptFinal_ex"] = _crypt(True, "cipher")
@model("HMAC_Final")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "HMAC_Final fails")
    b, off = e.base_of(st, a[1])
    hs = e.opts.get("mac_len", 32)
    if b is not None: e.havoc_range(st, b, off, hs, {"mac"})
    if not (is_int(a[2]) and a[2] == 0): e.store(st, a[2], 4, hs)
    return [(st, 1), (n, 0)]

# ---------------------------------------------------------------- licence manager interface (any implementation)
@model("mlle_license_new")
def _(e, st, a, i):
    n = st.fork(); e.note(n, i, "licence manager cannot be created")
    e.store(n, a[1], 8, ext_ptr(e, "mlle_error"))
    return [(st, ext_ptr(e, "license")), (n, 0)]
@model("mlle_license_checkout_feature", "mlle_license_checkin_feature")
def _(e, st, a, i):
    n = st.fork(); nm = i["callee"][1]; e.note(n, i, nm + " refuses"); e.note(st, i, nm + " grants")
    e.store(n, a[3], 8, ext_ptr(e, "mlle_error"))
    v = fresh(e, (nm,)); e.assume_ne0(st, v)
    return [(st, v), (n, 0)]
_nops("mlle_license_free")
