"""Taint analysis on every path of the session from main() and of the decryptor (mlle_cr_decrypt): data that may come from a library
file (read with fread/read, decrypted, or rejected by the decryptor) is never an argument of a call that writes to a stdio stream,
a file descriptor or a file; during a session no stdio call writes to standard output (which is the pipe under TLS)."""
from session import *
import contracts
FMT = {"printf": 0, "fprintf": 1, "dprintf": 1, "vprintf": 0, "vfprintf": 1, "syslog": 1}
OUT = {"puts": 0, "fputs": 0, "fputc": 0, "putc": 0, "putchar": 0, "fwrite": 0, "write": 1, "pwrite": 1, "send": 1, "BIO_write": 1, "BIO_puts": 1, "perror": 0, "fwrite_unlocked": 0}
class Mon(Session):
    content = CONTENT
    def bad(self, e, st, v):
        t = set(e.tags_of(st, v))
        if not is_int(v):
            for s, _ in v[1]: t |= e.S.tags[s]
        return [x for x in self.content if x in t]
    def stream_of(self, e, st, p):
        p = e.norm(st, p)
        if is_int(p): return None
        b, off = e.base_of(st, p)
        return e.S.name[b] if b is not None else None
    def pre(self, e, st, name, args, i):
        if name not in FMT and name not in OUT: return None
        self.ev("output call sites", i, e)
        data = args[FMT[name]:] if name in FMT else [args[OUT[name]]]
        for v in data:
            b = self.bad(e, st, v)
            if b: e.report(st, "content-leaves-outside-tls", i, "%s writes data that may be library file content (%s)" % (name, ", ".join(b)))
        std = name in ("printf", "puts", "putchar", "vprintf")
        if name in ("fprintf", "vfprintf"): std = self.is_stdout(e, st, args[0])
        elif name in ("fputs", "fputc", "putc"): std = self.is_stdout(e, st, args[1])
        elif name == "fwrite": std = self.is_stdout(e, st, args[3])
        elif name in ("write", "dprintf", "pwrite"): std = e.compare_const(st, args[0], 1) is True
        if std and not getattr(self, "nosession", False): e.report(st, "plaintext-on-the-pipe", i, "%s writes to standard output, which carries the TLS session" % name)
        return None
    def is_stdout(self, e, st, p):
        n = self.stream_of(e, st, p)
        return n is not None and "stdout" in n
class Dec(Mon):
    nosession = True
    content = ("file", "plain", "rejected")
def run(c):
    m = Mon()
    c.analyse("lve", "main", m, [contracts.CR, contracts.DIAG], session_args, opts=SESSION_OPTS, need=("SSL_write", "fread"))
    c.analyse("cr", "mlle_cr_decrypt", Dec(), [], need=("EVP_DecryptUpdate", "HMAC_Final"))
    c.need_count("output call sites", 2)
