"""Typestate + provenance analysis of the TLS set-up on every path of the executable from main() to the first TLS read, and of the tool library from mlle_start_executable to its return, with every
OpenSSL call succeeding or failing. Contexts and sessions carry what was established on them (verify mode, certificate callback, cipher list, private key, certificate; a session takes over what its context had when it was made).
Rule: no TLS byte is read or written before a completed handshake; at SSL_accept the executable's session requests a client certificate, has a certificate callback, a cipher list that OpenSSL's own parser
finds free of null and anonymous suites, its own private key and a signed certificate for that same key; at SSL_connect the tool's session has the same for its own key (no verify mode needed); the callback accepts only
when it left, in a global, the key text obtained from the presented certificate; mlle_start_executable returns a connection only after a completed handshake on it."""
from session import *
import contracts, ssl
from models import ext_ptr, fork_ptr, fresh
from engine import Crash
from build import AnalysisError
MOD = {}
def model(*names):
    def deco(f):
        for n in names: MOD[n] = f
        return f
    return deco
def get(e, st, p, k):
    if p is None or is_int(e.norm(st, p)): return None
    for t in e.tags_of(st, p):
        if t.startswith("a:%s=" % k): return t.split("=", 1)[1]
def put(e, st, p, k, v):
    b, _ = e.base_of(st, p)
    if b is None: return
    o = e.get_obj(st, b).same(); o.tags = frozenset(t for t in o.tags if not t.startswith("a:%s=" % k))
    if v is not None: o.tags = o.tags | {"a:%s=%s" % (k, v)}
    st.objs[b] = o
def attrs(e, st, p): return frozenset(t for t in e.tags_of(st, p) if t.startswith("a:"))
def nul(e, st, p): p = e.norm(st, p); return is_int(p)
def outcomes(e, st, i, ok):
    """the call succeeds (ok applied) or fails"""
    n = st.fork(); e.note(n, i, i["callee"][1] + " fails")
    ok(st); return [(st, 1), (n, 0)]
def handle(e, st, i, name, ok=None):
    n = st.fork(); e.note(n, i, name + " fails (NULL)"); h = ext_ptr(e, name)
    if ok: ok(h)
    return [(st, h), (n, 0)]
@model("SSL_CTX_new", "SSL_CTX_new_ex")
def _(e, st, a, i):
    m = e.norm(st, a[-1]); nm = e.S.name[m[1][0][0]][1] if not is_int(m) and e.S.name[m[1][0][0]][0] == "h" else "?"
    def ok(h): put(e, st, h, "role", "client" if "client" in nm else "server" if "server" in nm else "any")
    return handle(e, st, i, "SSL_CTX_new", ok)
@model("SSL_new")
def _(e, st, a, i):
    if nul(e, st, a[0]): return [(st, 0)]
    def ok(h):
        b, _ = e.base_of(st, h); at = attrs(e, st, a[0]); o = e.get_obj(st, b).same(); o.tags = o.tags | at; st.objs[b] = o
        e.store(st, h, 8, a[0])
    return handle(e, st, i, "SSL_new", ok)
_ok = {}
def list_ok(lit):
    """OpenSSL's verdict on the cipher list: (valid, suites without authentication or encryption)"""
    if lit not in _ok:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); c.minimum_version = ssl.TLSVersion.MINIMUM_SUPPORTED
        try: c.set_ciphers(lit + ":@SECLEVEL=0"); _ok[lit] = [d["name"] for d in c.get_ciphers() if "Au=None" in d["description"] or "Enc=None" in d["description"]]
        except ssl.SSLError: _ok[lit] = None
    return _ok[lit]
@model("SSL_CTX_set_cipher_list", "SSL_set_cipher_list")
def _(e, st, a, i):
    if nul(e, st, a[0]): return [(st, 0)]
    lit = e.cstr(st, a[1])
    e.monitor.ev("cipher lists judged", i, e)
    bad = list_ok(lit) if lit is not None else None
    v = "unknown" if lit is None else "invalid" if bad is None else "ok" if not bad else "weak:" + bad[0]
    return outcomes(e, st, i, lambda s: put(e, s, a[0], "cipher", v))
def key_of(e, st, p): return get(e, st, p, "key")
@model("SSL_CTX_use_RSAPrivateKey", "SSL_use_RSAPrivateKey", "SSL_CTX_use_PrivateKey", "SSL_use_PrivateKey")
def _(e, st, a, i):
    k = key_of(e, st, a[1])
    if nul(e, st, a[0]) or nul(e, st, a[1]) or k is None: return [(st, 0)]
    def ok(s):
        c = get(e, s, a[0], "cert")
        put(e, s, a[0], "pk", k)
        if c is not None and c != k: put(e, s, a[0], "cert", None)      # OpenSSL drops a certificate that does not match
    return outcomes(e, st, i, ok)
@model("SSL_CTX_use_certificate", "SSL_use_certificate")
def _(e, st, a, i):
    k = get(e, st, a[1], "pub")
    if nul(e, st, a[0]) or nul(e, st, a[1]) or k is None: return [(st, 0)]
    def ok(s):
        p = get(e, s, a[0], "pk"); put(e, s, a[0], "cert", k); put(e, s, a[0], "signed", get(e, s, a[1], "signed"))
        if p is not None and p != k: put(e, s, a[0], "pk", None)        # OpenSSL drops a private key that does not match
    return outcomes(e, st, i, ok)
@model("SSL_CTX_set_verify", "SSL_set_verify")
def _(e, st, a, i):
    if nul(e, st, a[0]): return []
    m = e.norm(st, a[1]); put(e, st, a[0], "verify", m if is_int(m) else "?"); return [(st, None)]
@model("SSL_CTX_set_cert_verify_callback")
def _(e, st, a, i):
    if nul(e, st, a[0]): return []
    f = e.norm(st, a[1]); nm = None if is_int(f) else e.sym2fn.get(f[1][0][0])
    put(e, st, a[0], "cb", nm); return [(st, None)]
@model("SSL_set_bio", "SSL_set_fd", "SSL_set_rfd", "SSL_set_wfd")
def _(e, st, a, i):
    if nul(e, st, a[0]): return []
    put(e, st, a[0], "bio", 0 if any(nul(e, st, x) for x in a[1:]) and i["callee"][1] == "SSL_set_bio" else 1)
    return [(st, None if i["ty"][0] == "v" else 1)]
@model("BIO_new_mem_buf")
def _(e, st, a, i):
    ks = frozenset(t for t in e.tags_of(st, a[0]) if t.startswith("key:"))
    return handle(e, st, i, "BIO_new_mem_buf", lambda h: e.add_tags(st, h, ks))
@model("BIO_write", "BIO_puts")
def _(e, st, a, i):
    if nul(e, st, a[0]): return [(st, -1)]
    n = st.fork(); e.add_tags(st, a[0], frozenset(t for t in e.tags_of(st, a[1]) if t.startswith("key:"))); return [(st, fresh(e, ("bw",), lo=1)), (n, -1)]
@model("PEM_read_bio_RSAPrivateKey", "PEM_read_bio_PrivateKey")
def _(e, st, a, i):
    ks = sorted(t[4:] for t in e.tags_of(st, a[0]) if t.startswith("key:"))
    if not ks: e.note(st, i, "no key in the buffer"); return [(st, 0)]
    return handle(e, st, i, i["callee"][1], lambda h: put(e, st, h, "key", "+".join(ks)))
@model("EVP_PKEY_new", "X509_new")
def _(e, st, a, i): return handle(e, st, i, i["callee"][1])
@model("EVP_PKEY_assign", "EVP_PKEY_set1_RSA")
def _(e, st, a, i):
    k = key_of(e, st, a[-1])
    if nul(e, st, a[0]) or k is None: return [(st, 0)]
    return outcomes(e, st, i, lambda s: put(e, s, a[0], "key", k))
@model("X509_set_pubkey")
def _(e, st, a, i):
    k = key_of(e, st, a[1])
    if nul(e, st, a[0]) or k is None: return [(st, 0)]
    return outcomes(e, st, i, lambda s: put(e, s, a[0], "pub", k))
@model("X509_sign")
def _(e, st, a, i):
    k = key_of(e, st, a[1])
    if nul(e, st, a[0]) or k is None: return [(st, 0)]
    return outcomes(e, st, i, lambda s: put(e, s, a[0], "signed", k))
@model("X509_get_serialNumber", "X509_get_subject_name", "X509_getm_notAfter", "X509_getm_notBefore")
def _(e, st, a, i):
    if nul(e, st, a[0]): return []          # OpenSSL dereferences the certificate
    return [(st, ext_ptr(e, i["callee"][1]))]
class Common(Session):
    own = None; server = False
    def check(self, e, st, ssl_, name, i):
        g = lambda k: get(e, st, ssl_, k)
        self.ev("handshake call sites", i, e)
        def bad(rule, msg): e.report(st, rule, i, "%s: %s" % (name, msg))
        c = g("cipher")
        if c is None: bad("default-ciphers", "no cipher list was set")
        elif c != "ok": bad("weak-ciphers", "the cipher list %s" % ("is not a constant" if c == "unknown" else "is not valid" if c == "invalid" else "enables " + c[5:]))
        if g("pk") is None: bad("no-private-key", "the session has no private key (or it does not belong to the certificate)")
        if g("cert") is None: bad("no-certificate", "the session has no certificate")
        elif g("cert") != self.own or g("pk") != self.own: bad("foreign-key", "certificate for %s, private key %s, expected %s" % (g("cert"), g("pk"), self.own))
        if g("cert") is not None and g("signed") != g("cert"): bad("unsigned-certificate", "the certificate is not signed with its own key")
        if g("bio") != "1": bad("no-transport", "the session has no transport")
        if g("role") == ("client" if self.server else "server"): bad("wrong-role", "made with the method of the other role")
        if self.server:
            v = g("verify")
            if v is None or not v.lstrip("-").isdigit() or not int(v) & 1: bad("no-certificate-request", "the client is not asked for a certificate (verify mode %s)" % v)
    def need_hs(self, e, st, name, args, i):
        self.ev("TLS reads and writes", i, e)
        h = st.gval.get("hs")
        if h is None or e.norm(st, sub(h, args[0])) != 0: e.report(st, "no-handshake", i, "%s before a completed handshake on the session" % name)
class Lve(Common):
    own = "PRIVATE_KEY_LVE"; server = True; cbs = ()
    def pre_call(self, e, st, name, args, i):
        if name in ("SSL_connect", "SSL_do_handshake"): e.report(st, "wrong-role", i, "the executable must be the server"); return []
        if name == "SSL_accept":
            if nul(e, st, args[0]): return [(st, -1)]
            self.check(e, st, args[0], name, i)
            ctx = e.load(st, args[0], 8, ["p", 64], i); cb = get(e, st, ctx, "cb")
            f = st.fork(); e.note(f, i, "handshake fails"); out = [(f, e.fresh(("hsfail",), lo=-1, hi=0))]
            if cb is None: e.report(st, "no-certificate-callback", i, "SSL_accept without a certificate callback: no key can be captured"); return out
            fn = cb
            if e.fns[fn].decl: raise AnalysisError("certificate callback %s is not defined here" % fn)
            n = st.fork(); n.gval["hs"] = args[0]; e.note(n, i, "handshake completes without client certificate"); out.append((n, 1))
            self.cb = fn; self.ev("certificate callbacks: " + fn)
            for s, rv in e.run_function(fn, [e.fresh(("storectx",), ptr=True, lo=4096), 0], st, i):
                for s2, v in e.compare(s, "sgt", rv, 0):
                    if v: s2.gval["hs"] = args[0]; out.append((s2, 1))
                    else: out.append((s2, e.fresh(("hsfail",), lo=-1, hi=0)))
            return out
        if name == "SSL_read": self.need_hs(e, st, name, args, i); return []       # the session proper is the subject of other properties
        if name == "SSL_write": self.need_hs(e, st, name, args, i)
        return None
    def leave(self, e, st, name, args, rv):
        if name != getattr(self, "cb", None): return
        if e.compare_const(st, rv, 0) is True: self.ev("callback refusals"); return
        if e.rng(st, rv)[1] <= 0: return
        self.ev("callback acceptances")
        for s, o in st.objs.items():
            if s not in e.sym2glob: continue
            for k, (sz, v) in o.cells.items():
                if sz != 8: continue
                v = e.norm(st, v)
                if is_int(v): continue
                b, _ = e.base_of(st, v)
                if b is None or e.rng(st, v)[0] <= 0: continue
                x = e.get_obj(st, b)
                if "peercert" in x.tags and not x.freed: return
        e.report(st, "accepts-without-key", None, "%s accepts a certificate although no key text obtained from it was kept" % name)
class Tool(Common):
    own = "PRIVATE_KEY_TOOL"
    def pre_call(self, e, st, name, args, i):
        if name in ("SSL_accept", "SSL_do_handshake"): e.report(st, "wrong-role", i, "the tool must be the client"); return []
        if name == "SSL_connect":
            if nul(e, st, args[0]): return [(st, -1)]
            self.check(e, st, args[0], name, i)
            n = st.fork(); e.note(n, i, "handshake fails"); st.gval["hs"] = args[0]
            return [(st, 1), (n, e.fresh(("hsfail",), lo=-1, hi=0))]
        if name in ("SSL_read", "SSL_write"): self.need_hs(e, st, name, args, i)
        return None
    def leave(self, e, st, name, args, rv):
        if name == "mlle_start_executable" and len(e.callstack) == 1:
            if e.compare_const(st, rv, 0) is True: self.ev("connections refused"); return
            self.ev("connections returned")
            if "hs" not in st.gval: e.report(st, "connected-without-handshake", None, "mlle_start_executable returns a connection without a completed handshake")
def run(c):
    m = Lve()
    c.analyse("lve", "main", m, [contracts.CR, contracts.DIAG, MOD], session_args, opts=dict(SESSION_OPTS), need=("SSL_accept", "SSL_read", "SSL_CTX_set_cipher_list"))
    for k in ("handshake call sites", "TLS reads and writes", "callback acceptances", "callback refusals", "cipher lists judged"): c.need_count(k)
    t = Tool()
    c.analyse("tool", "mlle_start_executable", t, [contracts.DIAG, MOD], lambda e, st, a: a, opts=dict(SESSION_OPTS), need=("SSL_connect", "SSL_CTX_set_cipher_list"))
    for k in ("connections returned", "connections refused"): c.need_count(k)
