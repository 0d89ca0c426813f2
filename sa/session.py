"""Common part of the automata that observe a protocol session at the library boundary (TLS calls, licence manager, stdio).

Ghost state of a path:
  hs     1 after a completed TLS handshake
  trust  1 after the captured peer key compared equal, over its full length, to an embedded trusted tool key
  msg    1 while a received message has not been disposed of, rep number of replies written for it
  cmd    the protocol word the first token of the current message was found equal to
Object tags: peer (bytes received), payload:<CMD> (data part of a message of that command), file / plain (content of a
library file, raw or decrypted), rejected (output of a failed decryption), peercert (derived from the peer's certificate)."""
from engine import Monitor, is_int, add, sub, neg, T, Infeasible
WORDS = ("NOTSIMPLE", "TOOLS", "YES", "VERSION", "FEATURE", "FILE", "FILECONT", "LIB", "LICENSE", "NO", "RETURNFEATURE", "RETURNLICENSE", "TOOLLIST", "ERROR")
CONTENT = ("file", "plain", "rejected")
READER = "ssl_read_message"
SESSION_OPTS = dict(alloc_fail=True, callback_externals=("SSL_accept",), lump=("mlle_log",), max_parts=600)

def reply_text(e, st, p):
    """leading literal text of the message at p"""
    b, off = e.base_of(st, p)
    if b is None or not is_int(off): return ""
    c = e.cstr(st, p)
    if c is not None: return c
    o = e.get_obj(st, b); t = ""
    for k in range(off, off + 64):
        x = o.cells.get(k)
        if x is None or x[0] != 1: break
        v = e.norm(st, x[1])
        if not is_int(v) or v == 0: break
        t += chr(v & 255)
    return t
def parse_reply(t):
    """-> (word, first number or None)"""
    w = ""
    for ch in t:
        if not (ch.isupper()): break
        w += ch
    rest = t[len(w):]; num = None
    if rest.startswith(" "):
        d = ""
        for ch in rest[1:]:
            if ch.isdigit() or (ch == "-" and not d): d += ch
            else: num = int(d) if d else None; break
    return w, num

class Session(Monitor):
    """subclasses name the ghosts they need in `use` (trust, msg, cmd, payload) and override the on_* callbacks.
    Message boundary (no function names involved): a successful SSL_read starts a message or, when SSL_pending / SSL_want_read
    last said that more is to come, continues it; an SSL_read after a "no more" answer begins the next message."""
    use = ()
    reset = ()                 # ghost keys dropped when a new message is read
    def __init__(self): self.events = {}; self.seen = set(); self.use = frozenset(self.use)
    def ev(self, what, i=None, e=None):
        k = (what, e.site(i) if e and i else None)
        if k not in self.seen: self.seen.add(k); self.events[what] = self.events.get(what, 0) + 1
    # callbacks
    def on_reply(self, e, st, word, num, tags, i): pass
    def on_message(self, e, st, i): pass                   # the first part of a message was received
    def on_message_end(self, e, st, i): pass               # next read begins, or the session ends
    def on_cmd(self, e, st, word, i): pass                 # the first token was found equal to a protocol word
    def on_effect(self, e, st, name, args, i): pass        # licence manager call or file opened (before the call)
    def on_effect_done(self, e, st, name, args, rv, i): pass
    def on_handshake(self, e, st, i): pass
    def on_end(self, e, st, args, rv): pass                # main returns
    # ---- plumbing
    def end_message(self, e, st, i):
        if st.ghost.get("msg"): self.on_message_end(e, st, i)
        for k in ("msg", "rep", "cmd", "wrfail") + tuple(self.reset): st.ghost.pop(k, None)
        for k in [k for k in st.gval if k.startswith("m:")]: del st.gval[k]
    def leave(self, e, st, name, args, rv):
        if name == "main":
            if st.ghost.get("msg"): self.on_message_end(e, st, None)
            self.on_end(e, st, args, rv)
    def on_exit(self, e, st, code, i):
        if st.ghost.get("msg"): self.on_message_end(e, st, i)
        self.on_end(e, st, None, code)
    def on_cmp(self, e, st, a, b, n, equal, i):
        if not equal: return
        ta, tb = e.tags_of(st, a), e.tags_of(st, b)
        if "cmd" in self.use and n is None and not st.ghost.get("cmd"):
            for q, tp in ((b, ta), (a, tb)):
                if "peer" in tp:
                    lit = e.cstr(st, q)
                    if lit is not None and (lit in WORDS or (lit.isupper() and lit.isalpha())):
                        st.ghost["cmd"] = lit; self.ev("command words recognised: " + lit); self.on_cmd(e, st, lit, i)
        if "trust" in self.use and n is None:
            for x, y in ((ta, tb), (tb, ta)):
                if "peercert" in x and any(t.startswith("key:PUBLIC_KEY_TOOL") for t in y):
                    st.ghost["trust"] = 1; self.ev("key comparisons", i, e)
    def on_copy(self, e, st, d, s, n, i):
        c = st.ghost.get("cmd")
        if c and "payload" in self.use and "peer" in e.tags_of(st, s): e.add_tags(st, d, ("payload:" + c,))
    def pre_call(self, e, st, name, args, i):
        if name == "SSL_CTX_set_cert_verify_callback":
            st.gval["cb"] = args[1]; return None
        if name in ("SSL_CTX_set_verify", "SSL_set_verify"):
            st.gval["vmode"] = args[1]; return None
        if name == "SSL_accept": return self.accept(e, st, args, i)
        if "msg" in self.use:
            if name == "SSL_read":
                if not st.ghost.pop("more", 0): self.end_message(e, st, i)
            elif name in ("SSL_pending", "SSL_want", "SSL_has_pending"):
                z = st.fork(); z.ghost.pop("more", None); st.ghost["more"] = 1
                return [(z, 1), (st, 3)] if name == "SSL_want" else [(z, 0), (st, e.fresh((name,), lo=1, hi=16384))]
            elif name == "SSL_get_shutdown":       # shut down: nobody waits for an answer any more
                z = st.fork()
                for k in ("msg", "rep", "cmd", "wrfail", "more") + tuple(self.reset): st.ghost.pop(k, None)
                for k in [k for k in st.gval if k.startswith("m:")]: del st.gval[k]
                return [(z, 0), (st, e.fresh((name,), lo=1, hi=3))]
        if name.startswith("mlle_license_") or name in ("fopen", "open", "freopen", "opendir"):
            self.ev("effect call sites", i, e)
            self.on_effect(e, st, name, args, i)
        return self.pre(e, st, name, args, i)
    def pre(self, e, st, name, args, i): return None
    def accept(self, e, st, args, i):
        """fail | no client certificate (callback not run) | certificate: the registered callback decides"""
        f = st.fork(); e.note(f, i, "handshake fails")
        vm = e.norm(st, st.gval.get("vmode", 0)); cb = st.gval.get("cb"); ok = []; bad = [(f, e.fresh(("hsfail",), lo=-1, hi=0))]
        if not is_int(vm) or not (vm & 1) or not (vm & 2):
            n = st.fork(); e.note(n, i, "handshake completes, client presents no certificate"); ok.append(n)
        if not is_int(vm) or (vm & 1):
            n = st.fork(); e.note(n, i, "handshake: client presents a certificate")
            nm = None
            if cb is not None and not is_int(cb) and len(cb[1]) == 1: nm = e.sym2fn.get(cb[1][0][0])
            if nm is not None and not e.fns[nm].decl:
                for s, rv in e.call_memo(nm, [e.fresh(("storectx",), ptr=True, lo=4096), 0], n, i):
                    for s2, v in e.compare(s, "eq", rv, 1):
                        if v: ok.append(s2)
                        else: bad.append((s2, -1))
            else: ok.append(n)
        out = bad
        for s in ok: self.on_handshake(e, s, i); out.append((s, 1))
        for s, _ in out: s.gval.pop("cb", None); s.gval.pop("vmode", None)
        self.ev("handshakes", i, e)
        return out
    def post_call(self, e, st, name, args, rv, i):
        if name == "SSL_write" and rv is not None and e.rng(st, rv)[0] > 0:
            t = reply_text(e, st, args[1]); w, num = parse_reply(t)
            self.ev("reply sites x words: " + (w or "?"), i, e)
            self.on_reply(e, st, w, num, e.tags_of(st, args[1]), i)
            if "rep" in self.use: st.ghost["rep"] = min(2, st.ghost.get("rep", 0) + 1)
        elif name == "SSL_read" and rv is not None:
            if "msg" in self.use:
                if e.rng(st, rv)[1] > 0:
                    if not st.ghost.get("msg"): st.ghost["msg"] = 1; self.on_message(e, st, i)
        elif name.startswith("mlle_license_"): self.on_effect_done(e, st, name, args, rv, i)
        return self.post(e, st, name, args, rv, i)
    def post(self, e, st, name, args, rv, i): return None

def session_args(e, st, a):
    """main without options: the session mode"""
    a[0] = 1
    return a
def excused(st): return st.ghost.get("allocfail") or st.ghost.get("wrfail")
