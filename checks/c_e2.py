"""Checks of the C runtime decided by the bit-provenance abstract interpreter (lib/bitinterp) against the wire format
specification (lib/cspec*): one function per property family, each a selection of scenario families and of violation kinds."""
import collections, re
from e2 import *
import cspec, cspec3
try:
    import cspec2
except ImportError: cspec2 = None

CORE_TAGS_E = ("pos", "bits", "ret", "anchor")
MSG = {"mem": "memory", "abort": "abort", "ub": "undefined behaviour", "init": "uninitialised read"}

def gens():
    g = {"fixed": cspec.fixed, "whole": cspec.whole, "variable": cspec.variable}
    if cspec2:
        g.update(cspec2.GENS)
    return g

CFG = {
    "le64": dict(),
    "be64": dict(target="powerpc64-unknown-linux-gnu"),
    "w32": dict(target="i386-unknown-linux-gnu", defines=("WORD_SIZE=4",)),
}

def context(cfg="le64", sets=()):
    kw = CFG[cfg]
    if any(s[0] in cspec3.GENS for s in sets): return cspec3.context3(**kw)
    return Ctx(runtime_module(extra_src=ACCESS, **kw))

def collect(c, sets, deep):
    """sets: list of (generator name, encoders?, decoders?)"""
    G = gens()
    jobs = []
    per = collections.OrderedDict()
    for name, e, d in sets:
        if name in cspec3.GENS:
            fn, gen = cspec3.GENS[name]
            g = gen(deep, c.W); fn(g, e, d)
        else:
            g = cspec.Gen(deep, c.W)
            G[name](g, e, d)
        per["%s%s" % (name, "" if e and d else " encoders" if e else " decoders")] = len(g.jobs)
        jobs += g.jobs
    return jobs, per

# look-ahead and in-place patching address the buffer directly and are meaningful only within one buffer; room left is a notion of the flat buffer
NOT_STREAMED = {"enc_noroom", "present", "det_seq", "milbus", "getlength"}
def stream_jobs(jobs, tier):
    """each step of a full-length scenario with the windows 1..: a boundary then falls at every octet of the field"""
    out, seen = [], {}
    for j in jobs:          # of the decoders the longest input only: more data always follow
        if getattr(j.fn, "__name__", "") == "dec1":
            k = (j.a[0], j.a[6], j.a[4] % 8, id(j.a[2]))
            if k not in seen or seen[k].a[5] < j.a[5]: seen[k] = j
    for i, j in enumerate(jobs):
        f, nm = j, getattr(j.fn, "__name__", "")
        if tier != "thorough" and getattr(j, "weight", 0) > 0xA000 and "BitString" not in j.name: continue
        if nm in NOT_STREAMED or j.name == "BitStream_checkBitPatternPresent": continue
        if nm == "dec1" and seen[(j.a[0], j.a[6], j.a[4] % 8, id(j.a[2]))] is not j: continue
        bs = (4, 8) if "AlignTo" in j.name else (1, 2 + i % 4) if tier != "thorough" else (1, 2, 3, 5, 8)
        for B in bs:
            k = Job(j.name, j.fn, f, B); k.weight = getattr(j, "weight", 0); k.heavy_fn, k.fn = j.fn, in_window
            out.append(k)
    return out

def in_window(c, job, B):
    c.block = B
    r = job(c)
    vs, n = r if isinstance(r, tuple) else (r, 1)
    for v in vs: v.label += ", buffer of %d bytes" % B
    return vs, n

def stream(rep, tier, sets, tags):
    c = Ctx(runtime_module(extra_src=ACCESS, defines=("ASN1SCC_STREAMING",)), overrides=STREAM_HOOKS)
    c.mach = StreamMach
    if tier != "thorough": c.job_limit, c.limit = 15, 420
    jobs, per = collect(c, sets, tier == "thorough")
    jobs = stream_jobs(jobs, tier)
    return decide(rep, c, jobs, per, tags, None, "streaming")

def run(rep, tier, sets, tags, cfg="le64", deep=None, only=None, also=None, limit=None):
    """also: (regular expression of operations, further violation kinds that count for them)"""
    deep = (tier == "thorough") if deep is None else deep
    c = context(cfg, sets)
    if limit: c.limit = limit
    jobs, per = collect(c, sets, deep)
    if only: jobs = [j for j in jobs if only(j.name)]
    return decide(rep, c, jobs, per, tags, also, cfg)

def hosts(rep, tier, sets, tags, cfgs):
    """the same obligations for every host: whatever fails on one of them makes the bytes depend on it"""
    covs = {}
    for cfg in cfgs:
        run(rep, tier, sets, tags, cfg=cfg, limit=390)
        covs[cfg] = {k: rep.cov[k] for k in ("scenarios", "paths", "operations", "runtime_functions_interpreted", "undecided_scenarios", "undecided_operations")}
        if any(not rep.known(v["key"]) for v in rep.viol): break
    rep.cov["hosts"] = covs

def decide(rep, c, jobs, per, tags, also, cfg):
    if not jobs: raise AnalysisError("no scenario was generated")
    counts = lambda t, fn: t in tags or (also and t in also[1] and re.match(also[0], fn))
    R = run_jobs(c, jobs, stop=lambda vs: any(counts(t, fn) and not rep.known("%s|%s" % (fn, t)) for t, fn, _, _ in vs))
    ops = sorted({j.name for j in jobs})
    und = collections.Counter(a for a, _ in R["undecided"])
    und.update(fn for t, fn, _, _ in R["viol"] if t == "undecided")
    tot = collections.Counter(j.name for j in jobs)
    lost = [o for o in ops if und[o] >= tot[o]]
    if len(lost) * 2 > len(ops):
        raise AnalysisError("the interpreter decides no scenario of %d of %d operations: %s" % (len(lost), len(ops), R["undecided"][:2]))
    other = collections.Counter()
    hits = {}
    for t, fn, msg, label in R["viol"]:
        if t == "undecided": continue
        if counts(t, fn):
            hits.setdefault((fn, t), []).append((msg, label))
        else: other[t] += 1
    for (fn, t), l in sorted(hits.items()):
        msg, label = l[0]
        rep.violation("%s|%s" % (fn, t), "%s: %s (%s; %d scenario(s))" % (fn, msg, label, len(l)), fn)
    rep.cov.update(scenarios=R["scenarios"], paths=R["paths"], operations=len(ops), runtime_functions_interpreted=len(R["functions"]),
                   undecided_scenarios=sum(und.values()), scenario_families=per, kinds_decided=sorted(tags),
                   operations_analysed=ops[:200], undecided_operations=dict(und.most_common(20)),
                   violations_of_other_properties_seen=dict(other), configuration=cfg)
    return R
