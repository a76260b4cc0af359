"""T05: no runtime function that remaining code refers to is stripped."""
import os, re, shutil, subprocess, concurrent.futures as cf
from common import *
import strip

SETS = [("acn", ["asn1crt_encoding_uper.c", "asn1crt_encoding_acn.c"], False),
        ("uper", ["asn1crt_encoding_uper.c"], False),
        ("xer", ["asn1crt_encoding_xer.c"], True)]      # BER cannot be selected on the command line

def symbols(obj):
    de, und = set(), set()
    for l in run(["nm", obj])[1].split("\n"):
        p = l.split()
        if len(p) == 2 and p[0] == "U": und.add(p[1])
        elif len(p) == 3 and p[1].isupper() and not p[2].startswith('.'): de.add(p[2])
    return de, und

def one(M, name, enc, units, xer, d, full, defs):
    un = M.unused(name, xer)
    M.emit(d, un)
    bad, de, und = [], set(), set()
    for c in ["asn1crt.c", "asn1crt_encoding.c"] + units:
        o = os.path.join(d, "x.o")
        r, t = run(["clang-18", "-c", "-O0", "-w", "-Werror=implicit-function-declaration", *defs, "-I", d, os.path.join(d, c), "-o", o])
        if r:
            for l in t.split("\n"):
                if "error:" in l and "too many" not in l: bad.append((c, re.sub(r"^.*?error: ", "", l))); break
            continue
        a, b = symbols(o); de |= a; und |= b
    for u in sorted((und - de) & full): bad.append(("link", "undefined reference to " + u))
    if name and name in full and not bad and name not in de: bad.append(("link", name + " is requested and not emitted"))
    shutil.rmtree(d, ignore_errors=True)
    return un, bad

def stripping(rep, tier):
    M = strip.Model()
    n = nu = 0
    with Scratch() as d:
        jobs = []
        for enc, units, xer in SETS:
            if any(u not in M.src for u in units): raise AnalysisError("runtime unit %s is not written by GenerateRTL.fs" % units)
            for defs in ([], ["-DASN1SCC_STREAMING"]) if enc == "acn" else ([],):
                full = set()          # what the complete runtime defines
                dd = os.path.join(d, "full"); M.emit(dd, [])
                for c in ["asn1crt.c", "asn1crt_encoding.c"] + units:
                    r, t = run(["clang-18", "-c", "-O0", "-w", *defs, "-I", dd, os.path.join(dd, c), "-o", dd + "/x.o"])
                    if r: raise AnalysisError("the complete runtime does not compile: " + t[:800])
                    full |= symbols(dd + "/x.o")[0]
                shutil.rmtree(dd)
                names = [""] + [x for x in M.names if enc == "acn" or x in full] + ([] if enc == "acn" else sorted(f for f in full if f not in M.names))
                jobs += [(x, enc, units, xer, defs, full) for x in names]
        with cf.ProcessPoolExecutor(NCPU) as ex:
            fs = [(j, ex.submit(one, M, j[0], j[1], j[2], j[3], os.path.join(d, str(i)), j[5], j[4])) for i, j in enumerate(jobs)]
            for j, f in fs:
                un, bad = f.result(); n += 1; nu += len(un)
                for c, t in bad:
                    rep.violation("%s|%s|%s|%s" % (j[1], j[0] or "(none)", c, t[:80]), "runtime emitted for generated code that refers to %s (%s%s): %s" % (j[0] or "no listed function", j[1], ", streaming" if j[4] else "", t), c)
    # each name the generator may ask for in its list must be known to the sources
    words = set(re.findall(r"\w+", "\n".join(M.src.values())))
    macros = set()
    for x in M.names:
        if x not in words and not re.match(r"Acn_(Init|Patch)Det_", x):
            rep.notes.append("listed name without definition: " + x)
    rep.cov.update(requests_analysed=n, removals_modelled=nu, listed_functions=len(M.names), dependency_entries=len(M.known), scanned_files=M.scanned,
                   rule="for every runtime function as the only one the generated code refers to (and for none): the runtime that remains after removing the functions the compiler considers unused compiles, defines that function and leaves no reference to a removed one")
