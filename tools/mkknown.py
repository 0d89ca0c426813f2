"""known_findings.json: genuine defects of the original tree. status fixed suppresses nothing."""
import json, subprocess
FIX = {  # subject of the commit -> property, what failed
"never copy more payload": ("C12", "extract_data copied as many bytes as the peer announced, beyond the bytes received"),
"mlle_read_command: check": ("C12", "mlle_read_command: continuation reads unchecked, copy unbounded by the announced length"),
"reject commands whose data part": ("C12", "commands with missing or incomplete data part were executed with a NULL or partial payload"),
"answer a LIB command that sets": ("C03", "LIB without a usable path moved the session on although no library was set"),
"treat a client without certificate": ("C01", "client without certificate: NULL key was compared (crash)"),
"mlle_send_error: take the length": ("C04", "mlle_send_error(NULL message) crashed instead of replying"),
"do not let FILE requests leave": ("C14", "FILE ../x opened files outside the library directory"),
"mlle_cr_decrypt: reject input": ("C08", "input shorter than IV and MAC, or without usable key mask, was processed with wrapped lengths"),
"decrypt files in folders without": ("C09", "files the encryptor produced (no package.moc in the folder, empty package.mo) could not be decrypted"),
"mlle_demask_key: reject paths": ("C12", "path buffer overflow for long relative file names"),
"fail encryption when no random": ("C10", "RAND_bytes result ignored: IV / key mask could be predictable"),
"mlle_spawn: close": ("C16", "child's pipe ends stayed open in the tool; failed starts leaked descriptors"),
"mlle_tool_version: report": ("C15", "failed send of VERSION reported without error"),
"tool library: report requests": ("C15", "a request that could not be sent was not noticed: the call waited for a reply"),
"wipe embedded keys with stores": ("C11", "wipe before return optimised away; bytes beyond a stripped carriage return not wiped"),
"ssl_get_error_string: always": ("C12", "uninitialised diagnostic text could be used"),
"lve --checkout-feature: do not send": ("C05", "licence set-up error in command-line mode wrote to a missing TLS connection (crash instead of failure exit)"),
"lve: report an option": ("C05", "option without value crashed instead of a failure exit"),
"encrypt_file: write to the file": ("C21", "encrypt_file without base directory overwrote its input"),
"encrypt_file, decrypt_file: fail when": ("C21", "success was reported although the output could not be flushed"),
"packagetool: fail when a file cannot": ("C18", "copy errors were ignored"),
"packagetool: fail when a file or folder": ("C18", "staging errors were ignored"),
"packagetool: encryptFile": ("C18", "write errors while encrypting were ignored"),
"packagetool: do not drop Package.mo": ("C17", "files whose name equals package.mo except for case were dropped"),
"check allocations sized": ("C12", "a message or LIB path too large to allocate was written through NULL"),
"report an error that could not be allocated": ("C12", "an error record that could not be allocated was dereferenced (NULL)"),
"copy tool and dependency files": ("C18", "tools.txt / dependency files with long lines were cut in the manifest; unreadable ones were ignored"),
"fail if the package.mo": ("C17", "a package.mo that could not be read was left out of the archive"),
"report that the staging folder": ("C18", "mkdtemp failure was followed by a copy of a null string"),
"remove the incomplete archive": ("C18", "a failed zip step left an incomplete archive behind"),
"encrypt_file, decrypt_file: refuse names": ("C21", "names longer than the buffer overflowed it or were cut, so that another file was read or written; an empty name was indexed before its start"),
"encrypt_file, decrypt_file: fail before": ("C21", "without a context the programs crashed and left an empty output file behind"),
"do not let a refused LIB": ("C13", "after a refused LIB message a FILE request of an untrusted tool was answered ERROR 4 instead of 5"),
"packagetool: fail when the manifest": ("C18", "manifest that could not be written was ignored"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    for k, (p, w) in FIX.items():
        if s[5:].startswith(k): out.append(dict(property=p, status="fixed", commit=h, what=w, line="fixed: property=%s %s %s" % (p, h, w))); break
    else: print("unlisted:", l)
import os
KN = json.load(open("/verif/tools/known.json")) if os.path.exists("/verif/tools/known.json") else []
json.dump(dict(findings=KN + out), open("/verif/known_findings.json", "w"), indent=1); print(len(out), "fixed", len(KN), "known")
