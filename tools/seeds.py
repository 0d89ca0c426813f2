# each entry: id, property, edits, demonstration (python: exits nonzero when the property is broken), needs, breaks
LVEB = ("client.py", "build_lve.sh", "recording_lm.c")
seed("b01", "C01", [("src/lve/mlle_lve_file.c", "    if (!lve_ctx->tool_approved) {", "    /* resources are not protected */\n    if (!lve_ctx->tool_approved && strstr(command->data, \".mo\") != NULL) {")],
'''
from client import *
lib = mklib({"Resources/a.txt": b"secret table"})
l = start(lib, key=fresh_key()); r = l.ask(msg("FILE", "Resources/a.txt")); print(r)
raise SystemExit(1 if r[0] == "FILECONT" or b"secret" in r[2] else 0)
''', "a peer with an unknown key asking for a file that is not Modelica source", "plain resource files of the library are sent to a tool that is not trusted")
seed("b02", "C01", [("src/lve/mlle_lve_feature.c", "    if (success) {\n        if (!is_in_checkout_feature_without_tool_mode) {", "    if (success) {\n        lve_ctx->tool_approved = 1;\n        if (!is_in_checkout_feature_without_tool_mode) {")],
'''
from client import *
lib = mklib({"a.txt": b"secret"})
l = start(lib, certificate=False); l.ask(msg("FEATURE", "test_licensed_feature")); r = l.ask(msg("FILE", "a.txt")); print(r)
raise SystemExit(1 if r[0] == "FILECONT" else 0)
''', "an untrusted peer that first checks out a licensed feature", "a granted feature makes an untrusted tool trusted; it then gets file content")
seed("b03", "C04", [("src/lve/mlle_lve_file.c", "        file_size = decrypted_size;\n", "        if (decrypted_size == 0) {\n            goto CLEANUP; /* nothing to send */\n        }\n        file_size = decrypted_size;\n")],
'''
from client import *
lib = mklib({"package.mo": b"package A end A;", "Empty.mo": b""})
for f in ("package", "Empty"): print(subprocess.run(["/repo/_build/encrypt_file", f + ".mo", f + ".moc", lib], cwd=lib, capture_output=True))
l = start(lib)
r = l.ask(msg("FILE", "package.moc")); print(r[0])
try: r = l.ask(msg("FILE", "Empty.moc"), 5); print(r)
except TimeoutError: print("no reply"); raise SystemExit(1)
''', "an encrypted file whose cleartext is empty", "the request is never answered, the tool hangs")
seed("b04", "C14", [("src/lve/mlle_lve_file.c", '    snprintf(file_path, path_size, "%s/%s", lve_ctx->libpath, rel_file_path);', '    if (rel_file_path[0] == \'/\') {\n        snprintf(file_path, path_size, "%s", rel_file_path);\n    } else {\n        snprintf(file_path, path_size, "%s/%s", lve_ctx->libpath, rel_file_path);\n    }')],
'''
from client import *
lib = mklib({"a.txt": b"x"}); other = mklib({"o.txt": b"outside"})
l = start(lib); r = l.ask(msg("FILE", other + "/o.txt")); print(r)
raise SystemExit(1 if r[2] == b"outside" else 0)
''', "a FILE request with an absolute path", "files outside the library directory are served")
seed("b05", "C22", [("src/lve/mlle_lve.c", "    if (lve_ctx->lic_mgr != NULL) {\n        mlle_license_free", "    if (lve_ctx->lic_mgr != NULL && lve_ctx->tool_approved) {\n        mlle_license_free")],
'''
from client import *
here = os.path.dirname(os.path.abspath(__file__)); exe = TMP + "/lve"; log = TMP + "/log"
subprocess.run([here + "/build_lve.sh", exe], check=True)
l = start(mklib({"a": b"x"}), certificate=False, exe=exe, env=dict(os.environ, LM_LOG=log)); print(l.ask(msg("FEATURE", "okX"))); l.close()
t = open(log).read(); print(t)
raise SystemExit(0 if t.count("new") == t.count("free") == 1 else 1)
''', "a session of an untrusted tool that checked out a feature", "the licence manager is not released, the licence stays checked out", LVEB)
seed("b06", "C02", [("src/lve/mlle_lve_libpath.c", "            lve_ctx->tool_approved = 0;\n            if(!is_in", "            if (lve_ctx->lic_mgr != NULL) {\n                lve_ctx->tool_approved = 0;\n            }\n            if(!is_in")],
'''
from client import *
here = os.path.dirname(os.path.abspath(__file__)); exe = TMP + "/lve"
subprocess.run([here + "/build_lve.sh", exe, "-DMLLE_GLOBAL_LICENSE_FEATURE=okglob"], check=True)
l = start(mklib({"a.txt": b"x"}), exe=exe, env=dict(os.environ, LM_NEW_FAIL="1")); print(l.v, l.l); r = l.ask(msg("FILE", "a.txt")); print(r)
raise SystemExit(1 if r[0] == "FILECONT" else 0)
''', "a build with a global licence feature whose licence manager cannot be set up", "file content is served although the global licence was never checked out", LVEB)
seed("b07", "C03", [("src/lve/mlle_lve.c", "                error_msg);\n        return current_state;\n    }\n", "                error_msg);\n        /* renegotiate after a protocol error */\n        return current_state == MLLE_LVE_STATE_LICENSE ? current_state : MLLE_LVE_STATE_VERSION;\n    }\n")],
'''
from client import *
lib = mklib({"a.txt": b"x"})
l = Lve(); l.ask("VERSION 1\\n"); print(l.ask(msg("FEATURE", "f"))); r = l.ask(msg("LIB", lib)); print(r)
raise SystemExit(0 if r[0] == "YES" else 1)
''', "an out-of-order command between VERSION and LIB", "a refused command throws the session back: LIB, allowed before it, is then refused")
seed("b08", "C05", [("src/lve/mlle_lve_feature.c", "    success = mlle_license_checkout_feature(lve_ctx->lic_mgr, command->length,\n", "    success = mlle_license_checkout_feature(lve_ctx->lic_mgr, (unsigned char)command->length,\n")],
'''
from client import *
here = os.path.dirname(os.path.abspath(__file__)); exe = TMP + "/lve"; log = TMP + "/log"
subprocess.run([here + "/build_lve.sh", exe], check=True)
l = start(mklib({"a": b"x"}), exe=exe, env=dict(os.environ, LM_LOG=log)); print(l.ask(msg("FEATURE", "ok" + "X" * 256))); l.close()
t = [x for x in open(log).read().split("\\n") if x.startswith("out")]; print(t)
raise SystemExit(0 if len(t[0]) > 100 else 1)
''', "a feature name of 256 bytes or more", "another (shorter) feature is checked out than the one named in the message", LVEB)
seed("b09", "C08", [("src/decryptors/default/src/mlle_cr_decrypt.c", "    if (memcmp(mac, mac_in, mac_len))", "    if (strncmp((char*)mac, (char*)mac_in, mac_len))")],
'''
from client import *
# a file whose code starts with a zero byte (1 in 256), then changed after it
lib = mklib({"package.mo": b"package A end A;"})
def enc(): subprocess.run(["/repo/_build/encrypt_file", "package.mo", "package.moc", lib], cwd=lib, check=True, capture_output=True)
for n in range(6000):
    enc(); d = open(lib + "/package.moc", "rb").read()
    if d[-32] == 0: break
else: raise SystemExit(0)
open(lib + "/package.moc", "wb").write(d[:-1] + bytes([d[-1] ^ 1]))
r = subprocess.run(["/repo/_build/decrypt_file", lib, "package.moc", TMP + "/out"], capture_output=True); print(n, r)
raise SystemExit(1 if r.returncode == 0 else 0)
''', "a file whose authentication code contains a zero byte, manipulated", "the stored code is not compared over its full length: manipulated files are accepted")
seed("b10", "C24", [("src/tool/mlle_licensing.c", "        size_t length = buffer_size < left_to_write ? buffer_size : left_to_write;\n", "        size_t length = buffer_size < file_contents->file_size ? buffer_size : left_to_write;\n")],
'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -fsanitize=address -DNDEBUG -I/repo/src/common -I/repo/src/tool -I/repo/_build -o $T/d "$D/read_demo.c" /repo/_build/libtool.a /repo/_build/libmlle_common.a -lssl -lcrypto -ldl || exit 3
timeout 100 $T/d
''', "a file read in pieces of which the last one is shorter", "bytes beyond the received file are handed out at the end of it", ("read_demo.c",))
seed("b11", "C13", [("src/lve/mlle_lve_file.c", "        if (decrypted_size < 0) {\n            error_code = MLLE_PROTOCOL_OTHER_ERROR;\n", "        if (decrypted_size < 0) {\n            error_code = MLLE_PROTOCOL_FILE_IO_ERROR;\n")],
'''
from client import *
lib = mklib({"package.moc": b"x" * 100})
l = start(lib); r = l.ask(msg("FILE", "package.moc")); print(r)
raise SystemExit(0 if r[:1] == ("ERROR",) and r[1][0] == "8" else 1)
''', "an encrypted file that is damaged", "a decryption failure is reported to the tool as a read error (6)")
seed("b12", "C06", [("src/lve/mlle_lve.c", "        if (tool_protocol_max_version < MIN_PROTOCOL_VERSION)\n", "        if ((unsigned long)tool_protocol_max_version < MIN_PROTOCOL_VERSION)\n")],
'''
from client import *
l = Lve(); r = l.ask("VERSION -1\\n"); print(r)
raise SystemExit(0 if r[0] == "ERROR" and r[1][0] == "2" else 1)
''', "a VERSION message with a negative number", "a version below the minimum is accepted")
seed("b13", "C07", [("src/common/mlle_ssl.c", '"HIGH:!DSS:!aNULL@STRENGTH"', '"HIGH:!DSS:@SECLEVEL=0:@STRENGTH"')],
'''
from client import *
class Anon(Lve):
    def __init__(self):
        self.p = subprocess.Popen([LVE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); c.check_hostname = False; c.verify_mode = ssl.CERT_NONE
        c.maximum_version = ssl.TLSVersion.TLSv1_2; c.set_ciphers("aNULL:@SECLEVEL=0")
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO(); self.s = c.wrap_bio(self.i, self.o); self.pump(self.s.do_handshake)
try: l = Anon(); print(l.s.cipher()); raise SystemExit(1)
except (ssl.SSLError, EOFError, BrokenPipeError) as x: print(x)
''', "a peer that offers anonymous cipher suites only", "anonymous cipher suites are enabled")
seed("b14", "C21", [("src/decryptors/default/src/mlle_cr_encrypt.c", "        if (read_len < READ_BUF_LEN && ferror(in))\n", "        if (read_len > 0 && read_len < READ_BUF_LEN && ferror(in))\n"),
 ("src/decryptors/default/src/mlle_cr_encrypt.c", "    while (!feof(in)) {\n", "    while (!feof(in) && !ferror(in)) {\n")],
'''
from client import *
d = TMP + "/folder.mo"; os.mkdir(d); out = TMP + "/o.moc"
r = subprocess.run(["/repo/_build/encrypt_file", d, out], capture_output=True); print(r, os.path.exists(out))
raise SystemExit(0 if r.returncode != 0 and not os.path.exists(out) else 1)
''', "an input whose first read fails (here: a folder)", "success is reported although the input could not be read")
seed("b15", "C12", [("src/lve/mlle_lve_libpath.c", "    while (path_size > 1 && (last == '\\\\' || last == '/')) {", "    while (path_size > 0 && (last == '\\\\' || last == '/')) {")],
'''
from client import *
here = os.path.dirname(os.path.abspath(__file__)); exe = TMP + "/lve"
subprocess.run([here + "/build_lve.sh", exe, "-fsanitize=address"], check=True)
l = Lve(exe=exe, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")); l.ask("VERSION 1\\n")
try: print(l.ask(msg("LIB", "////")))
except (EOFError, BrokenPipeError, ssl.SSLError) as x: print("died", x); raise SystemExit(1)
''', "LIB with a path of slashes only", "a byte before the start of the path buffer is read", LVEB)
seed("b16", "C23", [("src/lve/mlle_lve_file.c", '"Failed to decrypt file %s, might be corrupted.", file_path);', '"Failed to decrypt file %s, might be corrupted.", file_path);\n                fprintf(stderr, "%s starts with %.16s\\n", file_path, file_buffer);')],
'''
from client import *
lib = mklib({"package.moc": b"SECRETSECRETSECRETSECRET" * 4})
p = subprocess.Popen
class P(p):
    def __init__(self, *a, **k):
        if "stdin" in k: k["stderr"] = open(TMP + "/err", "wb")
        p.__init__(self, *a, **k)
subprocess.Popen = P
l = start(lib); r = l.ask(msg("FILE", "package.moc")); l.close(); t = open(TMP + "/err", "rb").read(); print(r, t)
raise SystemExit(1 if b"SECRET" in t else 0)
''', "an encrypted file that cannot be decrypted", "library content is written to standard error")
