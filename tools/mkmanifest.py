"""Regenerates MANIFEST.json from the properties that have a check (sa/props/Cxx.py) and the not-applicable table below."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "typestate + provenance dataflow over LLVM IR paths (path-sensitive abstract interpretation)",
 "C02": "typestate analysis of the global-licence build over LLVM IR",
 "C03": "protocol-stage automaton run over all abstract paths of the session",
 "C04": "read/write counting automaton over all abstract paths of the session",
 "C05": "event-correlation automaton (licence calls vs replies) over all abstract paths",
 "C06": "path-sensitive interval analysis of the negotiated number at the accepting reply",
 "C07": "ordered-effect (typestate) analysis of the TLS set-up calls",
 "C08": "typestate + provenance analysis of the decryptor (MAC before success)",
 "C09": "sibling comparison of encryptor and decryptor call/argument traces extracted from IR",
 "C10": "checked-result typestate of the random generator + provenance of IV and mask",
 "C11": "key-object typestate (wiped at return) and taint analysis to sinks",
 "C12": "buffer-bounds, null and initialisation analysis (relational intervals) over LLVM IR",
 "C13": "message-form typestate and error-cause automaton over all abstract paths, vocabulary table as oracle",
 "C14": "taint + typestate analysis of file names received from the peer",
 "C15": "typestate analysis of the tool API (reply kind vs result)",
 "C16": "file-descriptor typestate over fork/exec paths",
 "C17": "path-condition typestate of the archiving step and call-order analysis of packaging",
 "C18": "error-propagation (checked-result) typestate over the packaging steps",
 "C19": "taint analysis of manifest output (escaped vs raw sinks)",
 "C20": "provenance analysis of path arguments of destructive and writing calls",
 "C21": "output-file typestate of the encrypt and decrypt programs",
 "C22": "licence-manager object typestate over all abstract paths of the session",
 "C23": "taint analysis of file content to non-TLS sinks",
 "C24": "relational interval analysis of the file-reading API",
}
NA = {
 "C25": "equality of all output bytes with all input bytes is a functional property of AES-CBC and of byte values at run time; no static argument within reach decides it (C08 and C09 decide the structural half: same algorithms, layout, key derivation, MAC before release)",
 "C26": "confidentiality against an observer depends on the cryptographic strength of TLS as implemented by OpenSSL, outside this repository (C07 decides the configuration half)",
 "C27": "depends on the behaviour of vendor-supplied licence manager code and licence servers that are not in this repository",
}
NOTE = "Decides the rule stated in the check's docstring for every abstract path (all inputs, loop iterations and call outcomes over-approximated); external libraries are represented by models of their documented results. Not a functional-correctness proof: bounded by the modelled external behaviour and by the recognised library calls."
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    if os.path.exists(os.path.join(V, "sa/props", p + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                           evidence_file="evidence/%s.json" % p, technique=TECH[p], level="other", level_note=NOTE))
    else: na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 sa/build.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks", len(na), "n/a")
