"""Failure propagation over the packaging tool (roots main and validateArguments): every modelled file, folder, archive and encryption operation forks into success and failure; an automaton remembers that
a step failed. Rule: no archive is opened after a failure; the exit status is zero only if nothing failed, the mandatory arguments were given and an archive was completed; an archive
completed after a failure is removed; a file written is closed or checked so that write errors count; the command line is accepted only if every argument is known, given once and has a value."""
import pkg
def run(c):
    m, e = pkg.run(c, "C18", "main")
    for k in ("archives", "files encrypted", "files archived", "recursive calls", "outcomes: failure", "outcomes: success"): c.need_count(k)
    pkg.arguments(c)
    for k in ("command lines accepted", "command lines refused", "arguments stored"): c.need_count(k)
