"""Sibling comparison: both mlle_cr_decrypt and mlle_cr_encrypt are analysed on all paths, and the facts collected at their OpenSSL, stdio and name-comparison calls (cipher,
hash, key and lengths, where IV, ciphertext and code lie, what is hashed and in which order, mask length and position, file names that carry a mask, key bytes masked) must agree:
the encryptor writes IV, then all ciphertext, then the code, hashes IV and then exactly the blocks it encrypts; the decryptor takes IV from the start,
the code from the end, everything in between as ciphertext, and hashes IV and then all plaintext."""
from crypto import *
class Names:
    """which literal file name decides about the key mask, and which key bytes are masked"""
    def on_cmp(self, e, st, a, b, n, equal, i):
        for x, y in ((a, b), (b, a)):
            lit = e.cstr(st, x)
            if lit and lit.lower().startswith("package.mo") and n is None:
                if not st.ghost.get("pk"): st.ghost["pk"] = "=" + lit if equal else "!" + lit
                if equal: self.note_attr("mask file name", (lit, i["callee"][1]))
    def access(self, e, st, p, n, write, i):
        if write and i["op"] == "store":
            b, off = e.base_of(st, p)
            if b is not None and KEYTAG in e.get_obj(st, b).tags and e.get_obj(st, b).kind == "stack":
                off = e.norm(st, off); self.masked.add(off if is_int(off) else "?")
class D(Names, Dec):
    def __init__(self): Dec.__init__(self); self.masked = set(); self.taken = set()
    def on_cmp(self, e, st, a, b, n, equal, i): Names.on_cmp(self, e, st, a, b, n, equal, i); Dec.on_cmp(self, e, st, a, b, n, equal, i)
    def access(self, e, st, p, n, write, i):
        Names.access(self, e, st, p, n, write, i)
        if not write and i["op"] == "load" and "plain" in e.tags_of(st, p):       # mask bytes taken from a package file decrypted on the way
            b, off = e.base_of(st, p); off = e.norm(st, off)
            if "n:o" not in st.gval or b != e.base_of(st, st.gval["n:o"])[0]: return
            k = e.norm(st, sub(off, st.gval["n:r"]))
            self.taken.add(k if is_int(k) else "?")
    def post_call(self, e, st, name, args, rv, i):
        if name == "mlle_cr_decrypt": st.gval["n:r"] = rv; st.gval["n:o"] = args[4]
        return Dec.post_call(self, e, st, name, args, rv, i)
    def on_copy(self, e, st, d, s, n, i):
        if eq(e, st, n, 32) and e.base_of(st, s)[0] == e.base_of(st, st.gval["a:x4"])[0]: st.gval["m:src"] = sub(s, st.gval["a:x4"])
    def on_leave(self, e, st, args, rv):
        if e.ge0(st, sub(-1, rv)): return
        g = st.ghost
        if st.gval.get("m:src") is not None:
            k = e.norm(st, sub(st.gval["m:src"], rv)); self.note_attr("cached mask starts, after the content", k if is_int(k) else "?")
        if g.get("bad") or g.get("h") != "F": e.report(st, "decryptor-format", None, "mlle_cr_decrypt succeeds although " + g.get("bad", "what it hashes is not IV and then the plaintext"))
        k = e.norm(st, sub(st.gval["d:n"], rv)); k = k if is_int(k) else "?"
        self.note_attr("bytes stripped, %s" % ("mask file" if g.get("pk", "!")[0] == "=" else "other file"), k); self.ev("decryptor: successful paths")
class E(Names, Enc):
    def __init__(self): Enc.__init__(self); self.masked = set()
    def access(self, e, st, p, n, write, i): Names.access(self, e, st, p, n, write, i); Enc.access(self, e, st, p, n, write, i)
    def on_leave(self, e, st, args, rv):
        if e.compare_const(st, rv, 0) is True: return
        g = st.ghost; self.ev("encryptor: successful paths")
        if g.get("bad"): e.report(st, "encryptor-format", None, "mlle_cr_encrypt succeeds although " + g["bad"])
        elif g.get("w") != "M" or g.get("pend") or g.get("need"): e.report(st, "encryptor-format", None, "mlle_cr_encrypt succeeds with an incomplete file (written so far: %s)" % (g.get("w") or "nothing"))
        elif not eq(e, st, st.gval.get("e:iv"), st.gval.get("w:iv")): e.report(st, "encryptor-format", None, "the IV written is not the IV used")
        self.note_attr("mask appended, %s" % ("mask file" if g.get("pk", "!")[0] == "=" else "other file"), 1 if g.get("mask") else 0)
def one(c, m, k, who):
    v = m.attr.get(k, set())
    if len(v) != 1 or "?" in v or None in v: c.report("format-ambiguous", who, who, "%s: %s is not one known value: %s" % (who, k, sorted(map(str, v)))); return None
    return next(iter(v))
def run(c):
    d, n = D(), E()
    o = dict(any_globals=True, alloc_fail=True, lump=("mlle_log",))
    c.analyse("cr", "mlle_cr_decrypt", d, [contracts.CR], opts=o); c.analyse("cr", "mlle_cr_encrypt", n, [], opts=o)
    c.need_count("decryptor: successful paths"); c.need_count("encryptor: successful paths")
    def same(what, a, b):
        c.count("facts compared")
        c.samples.append("%s: %s / %s" % (what, a, b))
        if a is not None and b is not None and a != b: c.report("format-mismatch", "mlle_cr_encrypt / mlle_cr_decrypt", what, "%s: encryptor %s, decryptor %s" % (what, a, b))
    D_ = lambda k: one(c, d, k, "mlle_cr_decrypt"); E_ = lambda k: one(c, n, k, "mlle_cr_encrypt")
    for k in ("cipher", "hash", "hash key length", "cipher key", "IV bytes hashed"): same(k, E_(k), D_(k))
    same("IV length", E_("IV bytes written"), D_("ciphertext at")); same("IV hashed", E_("IV bytes written"), E_("IV bytes hashed")); same("IV position", 0, D_("IV at"))
    same("code length", E_("code bytes written"), D_("code bytes compared")); same("code position", E_("code bytes written"), D_("code at end minus"))
    x = E_("IV bytes written"); y = E_("code bytes written")
    same("bytes around the ciphertext", None if x is None or y is None else x + y, D_("bytes that are not ciphertext"))
    same("mask stripped", E_("key mask bytes"), D_("bytes stripped, mask file")); same("nothing stripped", 0, D_("bytes stripped, other file"))
    same("mask appended to mask files", 1, E_("mask appended, mask file")); same("no mask appended to other files", 0, E_("mask appended, other file"))
    a, b = E_("mask file name"), D_("mask file name")
    if a and b: same("mask file name", a[0].lower() + "c", b[0].lower()); same("mask file name comparison", a[1], b[1])
    same("cached mask starts, after the content", 0, D_("cached mask starts, after the content"))
    same("mask bytes taken, after the content", list(range(32)), sorted(d.taken, key=str) if "?" in d.taken else sorted(d.taken))
    same("key bytes masked", sorted(map(str, n.masked)), sorted(map(str, d.masked)))
