"""Automata over the OpenSSL calls of one decryption / one encryption. They follow what is hashed, encrypted, decrypted, compared and written,
as symbolic pointers and lengths, never by the names or the structure of the code in between."""
from engine import Monitor, is_int, add, sub, neg, T, Infeasible
from models import handle_name
import contracts
KEYTAG = "key:MLLE_CR_KEY"
def eq(e, st, a, b):
    if a is None or b is None: return False
    d = e.norm(st, sub(a, b))
    return d == 0 if is_int(d) else (e.ge0(st, d) and e.ge0(st, neg(d)))
class Crypto(Monitor):
    root = None
    def __init__(self): self.events = {}; self.seen = set(); self.attr = {}
    def ev(self, what, i=None, e=None):
        k = (what, e.site(i) if e and i else None)
        if k not in self.seen: self.seen.add(k); self.events[what] = self.events.get(what, 0) + 1
    def note_attr(self, k, v): self.attr.setdefault(k, set()).add(v)
    def bad(self, st, why): st.ghost.setdefault("bad", why)
    def key_ok(self, e, st, p):
        b, off = e.base_of(st, p)
        return b is not None and KEYTAG in e.get_obj(st, b).tags and e.norm(st, off) == 0
    def enter(self, e, st, name, args):
        if len(e.callstack) <= 1:
            for k, v in zip(("ctx", "rel", "in", "x3", "x4"), args): st.gval["a:" + k] = v
    def on_leave(self, e, st, args, rv): pass
    def leave(self, e, st, name, args, rv):
        if name == self.root and len(e.callstack) == 1: self.on_leave(e, st, args, rv)
    # common HMAC part: H in "", "K", "KI", "F", "?"
    def hmac(self, e, st, name, args, rv, i):
        g = st.ghost; ok = e.compare_const(st, rv, 0)
        if ok is not False:
            g["cfail"] = name; return
        if name == "HMAC_Init_ex":
            self.ev("keyed hash set up", i, e)
            g["h"] = "K" if self.key_ok(e, st, args[1]) else "?"
            self.note_attr("hash", handle_name(e, st, args[3])); n = e.norm(st, args[2]); self.note_attr("hash key length", n if is_int(n) else "?")
            st.gval["h:n"] = 0
        elif name == "HMAC_Update":
            self.ev("hash inputs", i, e)
            if g.get("h") == "K" and self.is_iv(e, st, args[1]) :
                n = e.norm(st, args[2]); self.note_attr("IV bytes hashed", n if is_int(n) else "?"); g["h"] = "KI"
            elif g.get("h") == "KI": self.hash_data(e, st, args[1], args[2], i)
            else: g["h"] = "?"
    def is_iv(self, e, st, p): return False

class Dec(Crypto):
    """mlle_cr_decrypt(context, rel_path, in, in_len, out): recursion goes through the contract"""
    root = "mlle_cr_decrypt"
    def is_iv(self, e, st, p): return eq(e, st, p, st.gval.get("a:in"))
    def hash_data(self, e, st, p, n, i):
        if eq(e, st, p, add(st.gval["a:x4"], st.gval.get("h:n", 0))): st.gval["h:n"] = add(st.gval["h:n"], n)
        else: st.ghost["h"] = "?"
    def post_call(self, e, st, name, args, rv, i):
        g = st.ghost; gv = st.gval
        if name in ("HMAC_Init_ex", "HMAC_Update"): self.hmac(e, st, name, args, rv, i)
        elif name in ("EVP_DecryptInit_ex", "EVP_DecryptUpdate", "EVP_DecryptFinal_ex", "HMAC_Final"):
            if e.compare_const(st, rv, 0) is not False: g["cfail"] = name; return
            if name == "EVP_DecryptInit_ex":
                if e.compare_const(st, args[1], 0) is not True: self.note_attr("cipher", handle_name(e, st, args[1]))
                if e.compare_const(st, args[3], 0) is not True: self.note_attr("cipher key", "embedded" if self.key_ok(e, st, args[3]) else "?")
                if e.compare_const(st, args[4], 0) is not True: self.note_attr("IV at", 0 if self.is_iv(e, st, args[4]) else "?")
                gv["d:n"] = 0; gv["d:c"] = 0; g.pop("fin", None)
            elif name == "HMAC_Final":
                if g.get("h") == "KI" and g.get("fin") and eq(e, st, gv.get("h:n"), gv.get("d:n")): g["h"] = "F"; gv["h:mac"] = args[1]
                else: g["h"] = "?"
            else:
                n = e.load(st, args[2], 4, ["i", 32], i)
                if not eq(e, st, args[1], add(gv["a:x4"], gv.get("d:n", 0))): self.bad(st, "decrypted bytes are not written one after another from the start of the output")
                gv["d:n"] = add(gv.get("d:n", 0), n)
                if name == "EVP_DecryptUpdate":
                    o = e.norm(st, sub(args[3], add(gv["a:in"], gv.get("d:c", 0)))); self.note_attr("ciphertext at", o if is_int(o) else "?")
                    if not is_int(o): self.bad(st, "ciphertext is not read from the input in order")
                    gv["d:c"] = add(gv.get("d:c", 0), args[4])
                else:
                    r = e.norm(st, sub(gv["a:x3"], gv.get("d:c", 0))); self.note_attr("bytes that are not ciphertext", r if is_int(r) else "?"); g["fin"] = 1
                self.ev("decryption steps", i, e)
    def on_cmp(self, e, st, a, b, n, equal, i):
        if not equal or n is None or i["callee"][1] not in ("memcmp", "CRYPTO_memcmp"): return      # all bytes, not up to a zero byte
        for x, y in ((a, b), (b, a)):
            if st.ghost.get("h") == "F" and eq(e, st, x, st.gval.get("h:mac")):
                self.ev("authentication code comparisons", i, e)
                k = e.norm(st, n); o = e.norm(st, sub(add(st.gval["a:in"], st.gval["a:x3"]), y))
                self.note_attr("code at end minus", o if is_int(o) else "?"); self.note_attr("code bytes compared", k if is_int(k) else "?")
                if k == 32 and o == 32: st.ghost["macok"] = 1

class Enc(Crypto):
    """mlle_cr_encrypt(context, rel_path, in, out)"""
    root = "mlle_cr_encrypt"
    def is_iv(self, e, st, p): return eq(e, st, p, st.gval.get("e:iv")) or (st.gval.get("e:iv") is None and eq(e, st, p, st.gval.get("w:iv")))
    def drawn(self, e, st, p):
        """number of bytes at p drawn from the generator in this call and not overwritten since"""
        for k in ("r:1", "r:2"):
            q = st.gval.get(k)
            if q is not None and eq(e, st, p, q): return st.gval[k + "n"]
        return None
    def access(self, e, st, p, n, write, i):
        if not write or i.get("callee", ("", ""))[1] in ("RAND_bytes", "RAND_priv_bytes"): return
        for k in ("r:1", "r:2"):
            q = st.gval.get(k)
            if q is None: continue
            b, _ = e.base_of(st, q); b2, o2 = e.base_of(st, p)
            if b == b2 and b is not None: del st.gval[k], st.gval[k + "n"]
    def hash_data(self, e, st, p, n, i): self.pair(e, st, "h", p, n)
    def pair(self, e, st, who, p, n):
        """every plaintext block goes to the cipher and to the hash, in the same order, whichever comes first"""
        g = st.ghost; gv = st.gval
        if g.get("need") == who:
            if eq(e, st, p, gv.get("p:p")) and eq(e, st, n, gv.get("p:n")): g.pop("need"); gv.pop("p:p"); gv.pop("p:n")
            else: self.bad(st, "the bytes hashed are not the bytes encrypted")
        elif g.get("need"): self.bad(st, "a plaintext block is only " + ("hashed" if g["need"] == "c" else "encrypted"))
        else: g["need"] = "c" if who == "h" else "h"; gv["p:p"] = p; gv["p:n"] = n
    def post_call(self, e, st, name, args, rv, i):
        g = st.ghost; gv = st.gval
        if name in ("RAND_bytes", "RAND_priv_bytes"):
            if e.compare_const(st, sub(rv, 1), 0) is True:
                self.ev("random draws", i, e)
                k = "r:1" if "r:1" not in gv else "r:2"
                gv[k] = args[0]; gv[k + "n"] = args[1]
                if gv.get("e:iv") is not None or gv.get("w:iv") is not None: g["maskdrawn"] = 1
            else: g["randfail"] = 1
        elif name in ("HMAC_Init_ex", "HMAC_Update"): self.hmac(e, st, name, args, rv, i)
        elif name in ("EVP_EncryptInit_ex", "EVP_EncryptUpdate", "EVP_EncryptFinal_ex", "HMAC_Final"):
            if e.compare_const(st, rv, 0) is not False: g["cfail"] = name; return
            if name == "EVP_EncryptInit_ex":
                if e.compare_const(st, args[1], 0) is not True: self.note_attr("cipher", handle_name(e, st, args[1]))
                if e.compare_const(st, args[3], 0) is not True: self.note_attr("cipher key", "embedded" if self.key_ok(e, st, args[3]) else "?")
                if e.compare_const(st, args[4], 0) is not True:
                    gv["e:iv"] = args[4]; n = self.drawn(e, st, args[4]); self.ev("cipher set up", i, e)
                    if n is None or not e.ge0(st, sub(n, 16)): g["ivbad"] = 1
            elif name == "HMAC_Final":
                if g.get("h") == "KI" and not g.get("need"): g["h"] = "F"; gv["h:mac"] = args[1]
                else: g["h"] = "?"
            else:
                if g.get("h") == "F": self.bad(st, "bytes are encrypted after the authentication code was completed") if name == "EVP_EncryptUpdate" else None
                if g.get("pend"): self.bad(st, "ciphertext is overwritten before it was written")
                n = e.load(st, args[2], 4, ["i", 32], i)
                g["pend"] = "F" if name == "EVP_EncryptFinal_ex" else "U"; gv["c:p"] = args[1]; gv["c:n"] = n
                if name == "EVP_EncryptUpdate":
                    self.ev("encryption steps", i, e)
                    if g.get("mask"): self.bad(st, "plaintext follows the key mask")
                    if "file" not in e.tags_of(st, args[3]):
                        d = self.drawn(e, st, args[3])
                        if d is None or not e.ge0(st, sub(d, args[4])): g["maskbad"] = 1
                        g["mask"] = 1; k = e.norm(st, args[4]); self.note_attr("key mask bytes", k if is_int(k) else "?")
                    self.pair(e, st, "c", args[3], args[4])
        elif name == "fwrite" and eq(e, st, args[3], gv.get("a:x3")):
            self.ev("output writes", i, e)
            full = eq(e, st, rv, args[2])
            if not full: g["cfail"] = "fwrite"; return
            from models import scale
            tot = scale(args[1], args[2]) if is_int(args[2]) else scale(args[2], args[1]) if is_int(args[1]) else None
            w = g.get("w", "")
            if w == "": 
                t = e.norm(st, tot) if tot is not None else "?"; self.note_attr("IV bytes written", t if is_int(t) else "?"); gv["w:iv"] = args[0]; g["w"] = "I"
                n = self.drawn(e, st, args[0])
                if n is None or tot is None or not e.ge0(st, sub(n, tot)): g["ivbad"] = 1
            elif g.get("pend"):
                if not (eq(e, st, args[0], gv.get("c:p")) and tot is not None and eq(e, st, tot, gv.get("c:n"))): self.bad(st, "what is written is not the whole ciphertext just produced")
                if g.pop("pend") == "F": g["w"] = "C"
            elif w == "C" and g.get("h") == "F" and eq(e, st, args[0], gv.get("h:mac")):
                t = e.norm(st, tot) if tot is not None else "?"; self.note_attr("code bytes written", t if is_int(t) else "?"); g["w"] = "M"
            else: self.bad(st, "something other than IV, ciphertext and code is written, or in another order")
def dec_args(variant):
    def f(e, st, a):
        if variant == "nocontext": a[0] = 0; a[1] = 0
        if variant == "noinput": a[2] = 0; a[3] = 0; a[4] = 0
        return a
    return f
