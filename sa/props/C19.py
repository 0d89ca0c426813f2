"""Taint analysis of what is printed into the manifest (root doWork): strings given by the user, names of files and paths derived from them are sources, manifest.xml is the sink. Rule: no such string is
printed as a whole or used as a format, and a single character of one is printed only where it is proved different from < > & and \"."""
import pkg
def run(c):
    m, e = pkg.run(c, "C19", "doWork")
    for k in ("manifest writes", "characters of user values written"): c.need_count(k)
