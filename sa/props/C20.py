"""Text-sensitive effect analysis of the packaging tool (root doWork): every path given to an operation that creates, overwrites, renames, changes or removes is computed as an expression over literals,
the staging folder, entry names and arguments. Rule: it lies inside the staging folder this run created (the library's folder there having been newly created), or it is the requested archive."""
import pkg
def run(c):
    m, e = pkg.run(c, "C20", "doWork")
    for k in ("files and folders written", "removals", "archives", "recursive calls"): c.need_count(k)
