"""Must-provenance analysis of every path of mlle_cr_encrypt (any earlier calls: static data holds anything): success is returned only on paths on which no call of
the random generator failed, the initialisation vector given to the cipher and the one written at the start of the file are 16
bytes drawn from RAND_bytes in this very call and not overwritten since, and every encrypted block that does not come from the source file (the key mask) was drawn likewise."""
from crypto import *
class Mon(Enc):
    def on_leave(self, e, st, args, rv):
        z = e.compare_const(st, rv, 0); g = st.ghost
        self.ev("encryption outcomes: " + ("failure" if z is True else "success"))
        if z is True: return
        if g.get("randfail"): e.report(st, "random-failure-ignored", None, "mlle_cr_encrypt reports success although the random generator failed")
        if g.get("ivbad"): e.report(st, "iv-not-random", None, "mlle_cr_encrypt reports success with an initialisation vector not drawn from the generator in this call")
        if g.get("maskbad"): e.report(st, "mask-not-random", None, "mlle_cr_encrypt reports success with a key mask not drawn from the generator in this call")
        if st.gval.get("e:iv") is None: e.report(st, "no-iv", None, "mlle_cr_encrypt reports success without having set an initialisation vector")
        if g.get("mask"): self.ev("encryption outcomes: success with key mask")
def run(c):
    c.analyse("cr", "mlle_cr_encrypt", Mon(), [], opts=dict(any_globals=True, alloc_fail=True, lump=("mlle_log",)), need=("RAND_bytes", "EVP_EncryptInit_ex", "fwrite"))
    for k in ("success", "failure", "success with key mask"): c.need_count("encryption outcomes: " + k)
    c.need_count("random draws", 2)
