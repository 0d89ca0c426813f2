"""Minimal tool side of the SEMLA protocol for demonstrations: TLS over the pipes of the executable."""
import ssl, subprocess, os, tempfile, select, shutil, atexit
KEYS = "/opt/vp/openssl_keys"
LVE = os.environ.get("DEMO_LVE", "/repo/_build/lve_linux64")
TMP = tempfile.mkdtemp(prefix="demo."); atexit.register(shutil.rmtree, TMP, True)
def cert(key):
    c = os.path.join(TMP, os.path.basename(key) + ".crt")
    subprocess.run(["openssl", "req", "-x509", "-new", "-key", key, "-subj", "/CN=x", "-days", "30", "-out", c], check=True, capture_output=True)
    return c
def fresh_key(bits=3072):
    k = os.path.join(TMP, "other.pem")
    subprocess.run(["openssl", "genrsa", "-out", k, str(bits)], check=True, capture_output=True)
    return k
class Lve:
    def __init__(self, key=KEYS + "/private_key_tool.pem", certificate=True, exe=None, env=None):
        self.p = subprocess.Popen([exe or LVE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
        c.set_ciphers("ALL:@SECLEVEL=0")
        if certificate: c.load_cert_chain(cert(key), key)
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.s = c.wrap_bio(self.i, self.o)
        self.pump(self.s.do_handshake)
    def flush(self):
        d = self.o.read()
        if d: self.p.stdin.write(d); self.p.stdin.flush()
    def pump(self, f, timeout=20):
        while True:
            try:
                r = f(); self.flush(); return r
            except ssl.SSLWantReadError:
                self.flush()
                if not select.select([self.p.stdout], [], [], timeout)[0]: raise TimeoutError("no answer")
                d = os.read(self.p.stdout.fileno(), 65536)
                if not d: raise EOFError("executable closed the connection")
                self.i.write(d)
    def send(self, b):
        if isinstance(b, str): b = b.encode()
        self.s.write(b); self.flush()
    def recv(self, timeout=20):
        """one reply: (word, rest of the line, data)"""
        buf = b""
        while b"\n" not in buf: buf += self.pump(lambda: self.s.read(65536), timeout)
        line, data = buf.split(b"\n", 1)
        w = line.decode("latin1").split(" ")
        need = int(w[-1]) if w[0] in ("NO", "ERROR", "FILECONT", "TOOLLIST") else 0
        while len(data) < need: data += self.pump(lambda: self.s.read(65536), timeout)
        self.extra = data[need:]
        return w[0], w[1:], data[:need]
    def ask(self, b, timeout=20): self.send(b); return self.recv(timeout)
    def more(self, timeout=0.7):
        """unsolicited data?"""
        try: return bool(self.pump(lambda: self.s.read(65536), timeout))
        except (TimeoutError, EOFError, ssl.SSLError): return False
    def close(self, kill=True):
        try: self.p.stdin.close()
        except OSError: pass
        try: return self.p.wait(10)
        except subprocess.TimeoutExpired: self.p.kill(); return None
def msg(word, data): 
    if isinstance(data, str): data = data.encode()
    return word.encode() + b" " + str(len(data)).encode() + b"\n" + data
def mklib(files):
    d = tempfile.mkdtemp(dir=TMP)
    for n, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "wb").write(t)
    return d
def start(lib, **k):
    l = Lve(**k); l.v = l.ask("VERSION 1\n"); l.l = l.ask(msg("LIB", lib)); return l
