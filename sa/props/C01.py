"""Typestate + provenance analysis of every path of the executable's session from main(): a TLS write whose buffer may hold
library file content (read from a file or decrypted) requires that on this path the key captured from the peer's certificate in
the handshake compared equal, as a whole string, to an embedded trusted tool key. The handshake is modelled with every outcome:
failure, no client certificate (verify callback not run), certificate accepted or refused by the registered callback."""
from session import *
import contracts
class Mon(Session):
    use = ("trust",)
    def on_reply(self, e, st, word, num, tags, i):
        c = [t for t in CONTENT if t in tags]
        if c or word == "FILECONT":
            self.ev("content writes", i, e)
            if not st.ghost.get("trust"):
                e.report(st, "content-to-untrusted-peer", i, "file content (%s) is sent although the peer's key was not found equal to a trusted tool key" % (", ".join(c) or word))
def run(c):
    for prog in ("lve",):
        m = Mon()
        c.analyse(prog, "main", m, [contracts.CR, contracts.DIAG], session_args, opts=SESSION_OPTS, need=("SSL_accept", "SSL_write", "SSL_read", "fread"))
    c.need_count("content writes"); c.need_count("key comparisons")
