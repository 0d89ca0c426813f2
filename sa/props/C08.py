"""Typestate and symbolic-length analysis of every path of mlle_cr_decrypt (with and without context, with and without input): a non-negative
result with input is returned only on paths on which no cryptographic step failed, the keyed hash was started with the embedded
key, was fed the 16 bytes at the start of the input and then exactly the bytes the cipher produced (same place, total length equal), was completed
after the cipher's final step, and was found equal over 32 bytes to the last 32 bytes of the input; the result is at most the number of bytes
hashed. Taint analysis of the callers (the executable's session, decrypt_file): the output of a decryption that reported failure never reaches the TLS session or a file."""
from crypto import *
from session import Session, session_args, SESSION_OPTS
import contracts
class Mon(Dec):
    variant = ""
    def on_leave(self, e, st, args, rv):
        neg_ = e.ge0(st, sub(-1, rv)); g = st.ghost
        self.ev("decryption outcomes (%s): %s" % (self.variant, "failure" if neg_ else "success"))
        if neg_: return
        if self.variant == "noinput": return
        if g.get("cfail"): e.report(st, "failure-ignored", None, "mlle_cr_decrypt reports success although %s failed" % g["cfail"])
        elif not g.get("macok"): e.report(st, "unauthenticated-success", None, "mlle_cr_decrypt reports success without the stored code having matched the hash of IV and plaintext (%s)" % (g.get("bad") or "hash state '%s'" % g.get("h", "none")))
        elif g.get("bad"): e.report(st, "unauthenticated-success", None, "mlle_cr_decrypt reports success although " + g["bad"])
        elif not e.ge0(st, sub(st.gval["d:n"], rv)): e.report(st, "unauthenticated-length", None, "mlle_cr_decrypt can report more bytes than were authenticated")
    def access(self, e, st, p, n, write, i):
        if not write and "rejected" in e.tags_of(st, p): e.report(st, "rejected-plaintext-used", i, "the output of a failed (nested) decryption is used")
class Send(Session):
    def on_reply(self, e, st, word, num, tags, i):
        self.ev("replies checked for rejected plaintext", i, e)
        if "rejected" in tags: e.report(st, "rejected-plaintext-sent", i, "the output of a failed decryption is sent (%s)" % word)
class File(Monitor):
    def __init__(self): self.events = {}
    def pre_call(self, e, st, name, args, i):
        if name in ("fwrite", "fputs", "write"):
            p = args[1] if name == "write" else args[0]
            self.events["file writes checked for rejected plaintext"] = 1
            if "rejected" in e.tags_of(st, p): e.report(st, "rejected-plaintext-written", i, "the output of a failed decryption is written to a file")
def run(c):
    for v in ("context", "nocontext", "noinput"):
        m = Mon(); m.variant = v
        c.analyse("cr", "mlle_cr_decrypt", m, [contracts.CR], dec_args(v), opts=dict(any_globals=True, alloc_fail=True, lump=("mlle_log",)))
        c.need_count("decryption outcomes (%s): success" % v); c.need_count("decryption outcomes (%s): failure" % v)
    c.analyse("lve", "main", Send(), [contracts.CR, contracts.DIAG], session_args, opts=SESSION_OPTS, need=("SSL_write", "mlle_cr_decrypt"))
    c.analyse("decrypt_file", "main", File(), [contracts.CR], opts=dict(lump=("mlle_log",)), need=("mlle_cr_decrypt", "fwrite"))
