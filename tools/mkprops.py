#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Library content is served only to a trusted tool",
 "The library vendor executable sends the content of a library file over the session only if the RSA public key of the certificate presented by the peer in this TLS handshake equals one of the trusted tool keys compiled into it. A peer with another key, or with no certificate at all, gets an error reply to every file request and no file content, whatever it sends and in whatever order.",
 ["inputs", "histories"], "every peer certificate (or none) and every sequence of messages",
 "The tests use one trusted tool and a few fixed dialogues; an untrusted or certificate-less peer, and message orders that reset the approval, are never tried.",
 ["src/lve/mlle_lve_pubkey.c", "src/lve/mlle_ssl_lve.c", "src/lve/mlle_lve.c", "src/lve/mlle_lve_file.c", "src/lve/mlle_lve_libpath.c"],
 [("key comparison against the trusted list", "mlle_lve_pubkey.c: validate"), ("approval flag tested before a file is read", "mlle_lve_file.c: mlle_lve_file"), ("peer key captured by the certificate callback", "mlle_ssl_lve.c: cert_verify_callback")],
 ["bytes written to the TLS session by the LVE"],
 [dict(name="tool_approved", meaning="peer key is trusted (and global licence held)", where="struct mlle_lve_ctx")])

prop("C02", "A configured global licence gates all file content",
 "When the executable is built with a global licence feature, it sends file content only after that feature has been successfully checked out from the licence manager in this session, for the library path in force; if the checkout (or licence set-up) fails or was never reached, no file content is ever sent in the session.",
 ["inputs", "histories", "configurations", "fault_sequences"], "every sequence of messages and every licence-manager outcome, with the global feature configured",
 "The tested build has no global feature at all, so nothing in the test suite exercises the gate.",
 ["src/lve/mlle_lve_libpath.c", "src/lve/mlle_lve_file.c", "src/lve/mlle_lve_feature.c", "src/lve/mlle_lve_config.h"],
 [("checkout inside the LIB handler, approval withdrawn on failure", "mlle_lve_libpath.c: mlle_lve_libpath")],
 ["FILECONT replies"])

prop("C03", "Commands take effect only in the protocol order",
 "In a session no licence is checked out or returned and no library file is opened before the peer has completed version negotiation and named a library with LIB, in that order. A known command that is not allowed at that point of the dialogue is answered with error 1, has no other effect, and leaves the session where it was: a command that was allowed before it is still allowed after it.",
 ["inputs", "histories"], "every sequence of well-formed and malformed commands",
 "Tests walk the legal order and a handful of illegal ones; the product of session state and command is never covered.",
 ["src/lve/mlle_lve.c", "src/lve/mlle_protocol_lve_state.c"],
 [("command/state table", "mlle_protocol_lve_state.c: mlle_next_state"), ("dispatch on the session state", "mlle_lve.c: mlle_lve_handle_command")],
 ["replies, licence-manager calls and file opens of the LVE"])

prop("C04", "Every message gets exactly one reply",
 "For every message the library vendor executable receives, valid or not, it writes exactly one reply message before it reads the next one, unless memory allocation or the TLS connection itself fails. It never stays silent (which would hang the tool) and never sends two replies (which would desynchronise the dialogue).",
 ["inputs", "histories", "fault_sequences"], "every message in every session state, every outcome of file, licence and decryption operations",
 "Tests sample replies of successful commands and a few errors; silent or doubled replies on error branches are not reached.",
 ["src/lve/mlle_lve.c", "src/lve/mlle_lve_libpath.c", "src/lve/mlle_lve_file.c", "src/lve/mlle_lve_feature.c", "src/common/mlle_io.c"],
 [("one send per handler outcome", "handlers called by mlle_lve.c: mlle_lve_handle_command")],
 ["messages written between two reads of the LVE"])

prop("C05", "Feature replies mirror the licence manager",
 "FEATURE is answered YES exactly when the licence manager granted the checkout of the feature named in the message in this request, NO when it refused, and a licence error (7) when the licence manager could not be set up; RETURNFEATURE is answered YES exactly when the check-in succeeded and a licence error otherwise. LICENSE and RETURNLICENSE are answered NOTSIMPLE. The command-line checkout mode exits with success exactly when the library path was accepted and the named feature was granted.",
 ["inputs", "histories", "fault_sequences"], "every feature name, every licence-manager outcome, every point of a session",
 "The testing licence manager grants one name; refusals, set-up failures and repeated checkouts are sampled once or not at all.",
 ["src/lve/mlle_lve_feature.c", "src/lve/mlle_lve_license.c", "src/lve/lve.c"],
 [("reply chosen from the checkout result", "mlle_lve_feature.c")], ["YES/NO/ERROR replies; exit status of --checkout-feature"])

prop("C06", "Version negotiation respects both sides' ranges",
 "The executable accepts a VERSION command only when the number in it is at least its minimum protocol version and then replies with its own version; otherwise it replies error 2 and keeps waiting for VERSION. The tool library reports success only when the version in the reply lies between its own minimum and maximum, and a failure with an error otherwise.",
 ["inputs"], "every version number on both sides",
 "Tests use the current version and one too-low value.",
 ["src/lve/mlle_lve.c", "src/tool/mlle_licensing.c"],
 [("range tests", "mlle_lve.c: mlle_lve_handle_command; mlle_licensing.c: mlle_tool_version")], ["VERSION/ERROR replies; mlle_tool_version result"])

prop("C07", "TLS is set up to identify the tool, and fails closed",
 "Before the first protocol message is read, the executable has completed a TLS handshake as server in which it requested the client's certificate and captured the key from it; if key, certificate, cipher list or callback cannot be set up, or the key cannot be extracted from the presented certificate, the handshake or session does not proceed. Neither side ever enables null or anonymous ciphers, and the tool presents a certificate for its own key.",
 ["fault_sequences", "configurations"], "every failing TLS set-up step and every certificate outcome",
 "Tests run with OpenSSL calls that succeed; failures of single set-up steps cannot be provoked from outside.",
 ["src/common/mlle_ssl.c", "src/lve/mlle_ssl_lve.c", "src/tool/mlle_ssl_tool.c", "src/lve/lve.c"],
 [("context creation", "mlle_ssl.c: create_CTX"), ("certificate callback", "mlle_ssl_lve.c: cert_verify_callback"), ("handshake before receive", "lve.c: main")], ["OpenSSL calls of LVE and tool"])

prop("C08", "Decrypted content is released only after its MAC matched",
 "Decryption reports success only if the stored authentication code, over its full length, equals the keyed hash recomputed over the stored initialisation vector and all decrypted bytes; every failing cryptographic step or any mismatch makes it report failure. No caller sends or keeps decrypted bytes after a reported failure.",
 ["inputs", "fault_sequences"], "every file content (truncated, corrupted, forged) and every failing cryptographic call",
 "Tests decrypt intact files and one or two corrupted ones; failures of individual crypto calls cannot be injected.",
 ["src/decryptors/default/src/mlle_cr_decrypt.c", "src/lve/mlle_lve_file.c", "src/encrypt_decrypt/decrypt_file.c"],
 [("HMAC recomputation and comparison", "mlle_cr_decrypt.c: mlle_cr_decrypt")], ["result of decryption; FILECONT replies; output file of decrypt_file"])

prop("C09", "Encryptor and decryptor agree on the file format",
 "The encryptor and the decryptor use the same cipher, mode, key length and hash, the same layout (initialisation vector, ciphertext, authentication code), the same bytes as input to the authentication code, and the same key derivation from the embedded key and the directory's key masks, so that what the packaging tools produce is what the executable can open.",
 ["inputs", "programs"], "every file, directory and key",
 "Tests encrypt and decrypt a few small files; lengths, positions and mask cases outside them are not compared.",
 ["src/decryptors/default/src/mlle_cr_encrypt.c", "src/decryptors/default/src/mlle_cr_decrypt.c"],
 [("sibling routines", "mlle_cr_encrypt, mlle_cr_decrypt, mlle_mask_key, mlle_demask_key")], ["encrypted file layout"])

prop("C10", "Every encryption uses fresh, checked randomness",
 "Each encrypted file carries an initialisation vector, and each package's key mask is, drawn for that file from the cryptographic random generator; if the generator fails, encryption fails and no file encrypted with a predictable value is reported as success.",
 ["inputs", "fault_sequences"], "every file and every random-generator outcome",
 "The generator never fails in tests, and tests do not compare vectors.",
 ["src/decryptors/default/src/mlle_cr_encrypt.c", "src/embedfile/randomize_key.c"],
 [("RAND_bytes for IV and masks", "mlle_cr_encrypt.c")], ["IV/mask bytes of encrypted files"])

prop("C11", "Embedded keys are wiped and never disclosed",
 "Whenever a routine that unpacks an embedded private or decryption key returns, on success or failure, its copy of that key has been overwritten; key bytes are never written to a log, the standard streams, a file or the session.",
 ["inputs", "fault_sequences"], "every exit path of every routine holding a key",
 "Tests cannot look at dead stack memory, and failing exits are not reached.",
 ["src/lve/mlle_ssl_lve.c", "src/tool/mlle_ssl_tool.c", "src/decryptors/default/src/mlle_cr_decrypt.c", "src/decryptors/default/src/mlle_cr_encrypt.c"],
 [("CLEAR_ macro on the common exit", "ssl_setup_lve, ssl_setup_tool, mlle_cr_decrypt, mlle_cr_encrypt")], ["memory on return; sinks"])

prop("C12", "Messages from the peer never corrupt memory",
 "No message received over the session, by the executable or by the tool library, whatever its length field, tokens or payload, makes the receiver read or write outside the buffers involved, use a missing payload as if it were present, or treat bytes that were never received as payload.",
 ["inputs", "histories"], "every byte sequence received, in every record split",
 "Tests send well-formed messages; lengths that disagree with the payload are not tried and need not crash when they are.",
 ["src/common/mlle_utils.c", "src/common/mlle_parse_command.c", "src/common/mlle_ssl.c", "src/common/mlle_io.c", "src/lve/mlle_lve.c", "src/lve/mlle_lve_file.c", "src/lve/mlle_lve_feature.c", "src/lve/mlle_lve_libpath.c", "src/tool/mlle_licensing.c"],
 [("payload extraction", "mlle_utils.c: extract_data, mlle_read_command"), ("record reading", "mlle_ssl.c: ssl_read_message")], ["memory accesses"])

prop("C13", "Both ends share one wire vocabulary",
 "Every command word the protocol defines is sent and recognised with the same spelling and the same argument form (none, number, length, number and length), each sent message fits the buffer it is formatted in, and error replies carry the codes 1 to 8 the protocol assigns to their causes (1 not understood, 2 version too low, 3 no licensing, 4 or 6 a file or folder that cannot be opened, 5 tool not allowed, 6 read error, 7 licence manager failure, 8 decryption failure or no memory).",
 ["inputs"], "every command, form and error cause",
 "Tests exercise the commands of one dialogue, and only compare a few error codes.",
 ["src/common/mlle_protocol.c", "src/common/mlle_protocol.h", "src/common/mlle_io.c", "src/common/mlle_io.h", "src/common/mlle_parse_command.c"],
 [("command table", "mlle_protocol.c"), ("senders", "mlle_io.c: mlle_send_*")], ["bytes of messages"])

prop("C14", "File requests stay inside the library directory",
 "A FILE request can only make the executable open a file below the library directory named by LIB: a request whose path contains a '..' element is answered with an error and opens nothing.",
 ["inputs"], "every requested path",
 "Tests request existing relative paths only.",
 ["src/lve/mlle_lve_file.c"],
 [("path check before the file is opened", "mlle_lve_file.c: mlle_lve_file")], ["file opens of the LVE"])

prop("C15", "Tool API success means the expected answer arrived",
 "A tool-library call reports success only if the executable's reply to that very request was received and is of the kind that means success for it; in every other case (NO, ERROR, NOTSIMPLE, unexpected or malformed reply, lost connection) it reports failure and, where the API has an error argument, leaves an error in it (unless memory ran out), and it leaves no error on success.",
 ["inputs", "fault_sequences"], "every reply and every I/O failure",
 "Tests talk to the real executable, which gives the expected answers.",
 ["src/tool/mlle_licensing.c", "src/common/mlle_utils.c"],
 [("reply matching", "mlle_licensing.c: mlle_expect_command(s)")], ["return value and error argument of mlle_tool_*"])

prop("C16", "Connecting to the executable leaks and mixes up nothing",
 "When the tool starts the executable, the child's standard input and output are the two pipes and each process keeps only its own ends, so that the death of either side is seen as end of file by the other; when any step of starting fails, every descriptor already acquired is closed and failure is reported with an error.",
 ["fault_sequences", "histories"], "every failing step of process creation and every moment of child death",
 "Tests start healthy executables and never exhaust descriptors.",
 ["src/tool/mlle_spawn_posix.c", "src/tool/mlle_licensing.c"],
 [("pipe/fork/dup2 sequence", "mlle_spawn_posix.c: mlle_spawn")], ["descriptor table of both processes"])

prop("C17", "An encrypted package contains no cleartext Modelica source",
 "When encryption is requested, no Modelica source file reaches the archive: every such file in the library is either replaced by its encrypted form or the packaging fails, and the archiving step skips cleartext Modelica files in every folder.",
 ["inputs", "configurations", "fault_sequences"], "every library tree and every failing step",
 "The packaging tool is not even linked in the test build.",
 ["src/packagetool/utils.c", "src/packagetool/packagetool.c"],
 [("encrypt step", "utils.c: encryptDirectoryLinux, encryptFile"), ("archive filter", "utils.c: zipDirectoryLinux")], ["archive entries"])

prop("C18", "Packaging fails loudly",
 "If any step of packaging fails (bad arguments, missing input, copying, manifest, encryption, archiving), the packaging tool exits with a nonzero status and does not go on to produce or complete an archive; it exits zero only after every step succeeded.",
 ["inputs", "fault_sequences"], "every failing step",
 "The packaging tool is not run by the test suite.",
 ["src/packagetool/packagetool.c", "src/packagetool/utils.c", "src/packagetool/manifest.c"],
 [("step sequence", "packagetool.c: doWork")], ["exit status; archive creation"])

prop("C19", "Manifest values are always escaped",
 "Every user-supplied text the packaging tool writes into the manifest goes through XML escaping, so that no title, description, version or path can break the manifest's structure (the ready-made XML fragments for tools and dependencies are inserted as they are, by design).",
 ["inputs"], "every argument value", "The manifest writer is not run by the tests.",
 ["src/packagetool/manifest.c"], [("escaping writer", "manifest.c: print_escaped_text")], ["manifest bytes"])

prop("C20", "Packaging removes and writes only its own staging files",
 "The packaging tool deletes, overwrites or renames files only inside the temporary staging directory it created in this run, and writes (or replaces) outside it only the requested output archive; the user's library, icon, licence and executable inputs are only ever read.",
 ["inputs", "fault_sequences"], "every argument combination and failing step", "The packaging tool is not run by the tests.",
 ["src/packagetool/utils.c", "src/packagetool/packagetool.c"], [("staging path construction", "utils.c")], ["file-system effects"])

prop("C21", "Stand-alone encrypt and decrypt leave no partial output",
 "The encrypt and decrypt programs exit with success only if the whole output was produced and written, under the name given on the command line; when they fail after creating the output file they remove it and exit with a nonzero status.",
 ["inputs", "fault_sequences"], "every failing read, crypto or write step", "Tests run them on good inputs.",
 ["src/encrypt_decrypt/encrypt_file.c", "src/encrypt_decrypt/decrypt_file.c"], [("failure exit removes the output", "main of both programs")], ["exit status; output file"])

prop("C22", "Checked-out licences are released when the session ends",
 "A licence manager is created at most once per session, for the library named by the peer, and is released before the executable exits on every way a session with a tool can end (peer shutdown, read error, protocol errors); it is not used after release.",
 ["histories", "fault_sequences"], "every session history and end", "Tests end sessions normally and do not look at licence release.",
 ["src/lve/mlle_lve.c", "src/lve/mlle_lve_feature.c", "src/lve/lve.c"], [("release on shutdown", "mlle_lve.c: mlle_lve_shutdown")], ["licence-manager calls"])

prop("C23", "Decrypted source leaves the executable only through TLS",
 "The content of library files, encrypted or not, leaves the executable only as payload of TLS writes to the connected tool: nothing of it is written to standard output, standard error, the log file or any other file. During a session nothing is written to the pipe (standard output) except through TLS.",
 ["inputs", "histories", "configurations"], "every file and every path, with logging enabled or not", "Tests do not inspect logs and side files.",
 ["src/lve/mlle_lve_file.c", "src/common/mlle_io.c", "src/common/mlle_ssl.c", "src/decryptors/default/src/mlle_cr_decrypt.c"], [("single writer", "mlle_ssl.c: ssl_write_message")], ["write-type calls of the LVE"])

prop("C24", "File reading API respects buffer bounds and order",
 "Reading a received file through the tool library hands out its bytes in order, at most as many as requested and at most as many as remain, never beyond the received content, and reports the end of the content (with the value -1) once nothing remains, handing out nothing.",
 ["inputs", "histories"], "every file size and sequence of read sizes", "Tests read whole files with a few sizes.",
 ["src/tool/mlle_licensing.c"], [("position bookkeeping", "mlle_licensing.c: mlle_tool_read_bytes")], ["bytes copied to the caller"])

prop("C25", "Encrypting then decrypting gives back the same bytes",
 "For every source file, decrypting the encrypted form in its library position with the matching executable yields exactly the original bytes.",
 ["inputs"], "every file content and position", "Tests round-trip a few files.",
 ["src/decryptors/default/src/mlle_cr_encrypt.c", "src/decryptors/default/src/mlle_cr_decrypt.c"], [("sibling routines", "mlle_cr_encrypt, mlle_cr_decrypt")], ["decrypted bytes"])

prop("C26", "The TLS channel keeps content secret from eavesdroppers",
 "No observer of the pipe between tool and executable learns file content or keys.",
 ["inputs"], "every observer", "Not testable.", ["src/common/mlle_ssl.c"], [("TLS", "OpenSSL")], ["pipe traffic"])

prop("C27", "A vendor licence manager enforces the vendor's licence terms",
 "A plugged-in licence manager grants exactly the features the vendor's licence allows.",
 ["inputs", "configurations"], "every licence file", "Only a testing dummy is in the tree.", ["src/license_managers/include/mlle_license_manager.h"], [("interface", "mlle_license_manager.h")], ["grant decisions"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
