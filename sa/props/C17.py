"""Path- and text-sensitive dataflow over the packaging tool (root doWork, encryption requested): every folder entry the encrypting code lists is followed as a representative
(., .., other name, Modelica file in either case, each as folder, file or something else), recursion by least fixpoint over the texts of the arguments. Rule: an entry that is a Modelica file
is encrypted into its name + 'c' before the next entry is fetched (package.mo may have been done first), every folder is descended into, the archive is opened only after the library's root was
listed for encryption and no encryption step failed, and no name that ends in .mo reaches the archive."""
import pkg
def run(c):
    m, e = pkg.run(c, "C17", "doWork")
    for k in ("archives", "files encrypted", "entries of the library followed", "files archived with encryption", "recursive calls", "outcomes: success"): c.need_count(k)
