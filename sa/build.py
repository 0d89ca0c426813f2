"""Front end: /repo's working tree -> LLVM IR -> JSON, one module per program."""
import os, subprocess, sys, hashlib, json, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
STUBS = os.path.join(VERIF, "stubs")
class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))
    return r.stdout

def first(*names):
    for n in names:
        p = shutil.which(n)
        if p: return p
    raise AnalysisError("tool not found: " + names[0])

def ensure_irdump():
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        cfg = first("llvm-config-18", "/usr/lib/llvm-18/bin/llvm-config")
        fl = sh([cfg, "--includedir", "--ldflags", "--libs", "core", "irreader", "support"]).decode().split()
        tmp = exe + ".%d.tmp" % os.getpid()
        sh([first("clang++-18", "clang++"), "-O1", "-std=c++17", "-fno-rtti", "-I" + fl[0], src, "-o", tmp] + fl[1:])
        os.rename(tmp, exe)
    return exe

def srcs(*pats):
    out = []
    for p in pats:
        g = sorted(glob.glob(os.path.join(REPO, "src", p)))
        if not g: raise AnalysisError("anchor vanished: no source matches src/" + p)
        out += g
    return [s for s in out if not s.endswith("_windows.c")]

COMMON = ["common/*.c"]
DEC = ["decryptors/default/src/*.c"]
LVEDEF = ["-DCMAKE_PROJECT_NAME=SEMLA", "-DCMAKE_PROJECT_VERSION=0.0.0", "-DLVETARGET=lve_linux64"]
PROGRAMS = {
  "lve":      (["lve/*.c"] + DEC + COMMON, LVEDEF),
  "lve_glob": (["lve/*.c"] + DEC + COMMON, LVEDEF + ["-DMLLE_GLOBAL_LICENSE_FEATURE=GLOBFEAT"]),
  "tool":     (["tool/*.c"] + COMMON, []),
  "packagetool": (["packagetool/*.c"] + DEC + COMMON, []),
  "encrypt_file": (["encrypt_decrypt/encrypt_file.c"] + DEC + COMMON, []),
  "decrypt_file": (["encrypt_decrypt/decrypt_file.c"] + DEC + COMMON, []),
  "cr":       (DEC, []),
  "obfuscate": (["embedfile/obfuscate.c", "embedfile/obfuscate_utils.c", "obfuscators/dummy/src/*.c"], []),
  "randomize_key": (["embedfile/randomize_key.c", "embedfile/obfuscate_utils.c", "obfuscators/dummy/src/*.c"], []),
}
INC = ["encrypt_decrypt", "decryptors/include", "license_managers/include", "obfuscators/include", "embedfile",
       "common", "lve", "tool", "../ThirdParty/uthash", "", "decryptors/default/src"]

def _treehash(extra):
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), STUBS):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr(extra).encode()); h.update(open(__file__, "rb").read())
    return h.hexdigest()[:20]

def module_json(prog):
    pats, defs = PROGRAMS[prog]
    files = srcs(*pats)
    dump = ensure_irdump()
    key = _treehash((prog, defs, os.path.basename(dump), REPO))
    cdir = os.path.join(BUILD, "cache"); os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, "%s-%s.json" % (prog, key))
    if os.path.exists(out):
        with open(out) as f: return json.load(f)
    import tempfile
    tmp = tempfile.mkdtemp(prefix="sa-", dir=BUILD)
    try:
        clang = first("clang-18", "clang"); procs = []; bcs = []
        for i, s in enumerate(files):
            bc = os.path.join(tmp, "%d.bc" % i); bcs.append(bc)
            cmd = [clang, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fPIC", "-DNDEBUG", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w",
                   "-I" + STUBS] + defs + ["-I" + os.path.join(REPO, "src", d) for d in INC] + ["-emit-llvm", "-c", s, "-o", bc]
            procs.append((s, subprocess.Popen(cmd, stderr=subprocess.PIPE)))
        for s, p in procs:
            e = p.communicate()[1]
            if p.returncode: raise AnalysisError("cannot compile %s:\n%s" % (s, e.decode(errors="replace")[-3000:]))
        sh([first("llvm-link-18", "/usr/lib/llvm-18/bin/llvm-link")] + bcs + ["-o", os.path.join(tmp, "l.bc")])
        sh([first("opt-18", "/usr/lib/llvm-18/bin/opt"), "-passes=mem2reg", os.path.join(tmp, "l.bc"), "-o", os.path.join(tmp, "o.bc")])
        data = sh([dump, os.path.join(tmp, "o.bc")])
        t = out + ".%d" % os.getpid()
        with open(t, "wb") as f: f.write(data)
        os.rename(t, out)
        # keep the cache small
        try:
            for o in sorted(glob.glob(os.path.join(cdir, "*.json")), key=os.path.getmtime)[:-40]: os.remove(o)
        except OSError: pass
        return json.loads(data)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    for p in (sys.argv[1:] or PROGRAMS):
        m = module_json(p)
        nf = [f for f in m["functions"] if not f["decl"]]
        print(p, "functions", len(nf), "insts", sum(len(b) for f in nf for b in f["blocks"]),
              "externals", len(m["functions"]) - len(nf))

def repo_id():
    try: return subprocess.run(["git", "-C", REPO, "rev-parse", "--short", "HEAD"], capture_output=True, text=True).stdout.strip()
    except Exception: return "?"

def macro_int(header, name, default):
    """integer value of a macro of /repo's headers, default when it no longer exists"""
    src = '#include "%s"\n#ifdef %s\nSA_VALUE (%s)\n#endif\n' % (header, name, name)
    cmd = [first("clang-18", "clang"), "-E", "-P", "-w", "-I" + STUBS] + ["-I" + os.path.join(REPO, "src", d) for d in INC] + ["-x", "c", "-"]
    r = subprocess.run(cmd, input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for l in r.stdout.decode(errors="replace").splitlines():
        if l.startswith("SA_VALUE"):
            t = l[8:].strip()
            if set(t) <= set("0123456789()+-*/ <>|&~xabcdefABCDEF"):
                try: return int(eval(t, {"__builtins__": {}}))
                except Exception: pass
    return default
