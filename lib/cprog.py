"""The C runtime as one linked IR module."""
from llir import *

CORE = ["asn1crt.c", "asn1crt_encoding.c", "asn1crt_encoding_acn.c", "asn1crt_encoding_uper.c"]
LINK = "llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"

def runtime_module(files=CORE, defines=(), target=None, extra_src="", ubsan=True, passes="mem2reg"):
    with Scratch() as d:
        outs = []
        def one(f):
            o = os.path.join(d, os.path.basename(f) + ".ll")
            compile_ll(d, f if f.startswith("/") else os.path.join(RT, f), o, defines, target, ubsan, mem2reg=False)
            return o
        fs = list(files)
        if extra_src:
            p = os.path.join(d, "extra.c"); open(p, "w").write(extra_src); fs.append(p)
        outs = pmap(one, fs)
        all_ = os.path.join(d, "all.ll")
        rc, o = run([LINK, "-S", "-o", all_] + outs, timeout=120)
        if rc: raise AnalysisError("link failed: " + o[-1000:])
        rc, o = run([OPT, "-S", "-passes=" + passes, all_, "-o", all_ + ".m"], timeout=120)
        if rc: raise AnalysisError("opt failed: " + o[-1000:])
        return parse_module(open(all_ + ".m").read())
