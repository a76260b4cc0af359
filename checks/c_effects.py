"""Checks of the C runtime decided by effect analyses over its IR (lib/effects)."""
import re, collections
from effects import *

FILES = ["asn1crt.c", "asn1crt_encoding.c", "asn1crt_encoding_acn.c", "asn1crt_encoding_uper.c", "asn1crt_encoding_ber.c", "asn1crt_encoding_xer.c"]
CORE4 = FILES[:4]

def runtime(files=FILES, defines=()):
    """all runtime units: those present in the directory, the anchors must be there"""
    import os
    have = sorted(f for f in os.listdir(RT) if f.endswith(".c"))
    for f in files:
        if f not in have: raise AnalysisError("runtime unit %s is gone" % f)
    return load_runtime(have if files is FILES else files, defines)

def exported(M): return sorted(n for n, F in M.funcs.items() if not F.internal)

def where(M, fn, ln): return "%s:%d" % (fn, ln)

# ------------------------------------------------------------------ C12
def no_state(rep, tier):
    nfun = nobj = nw = 0; libs = set()
    for defs in ((), ("ASN1SCC_STREAMING",), ("WORD_SIZE=4",)):
        M = runtime(FILES, defs)
        roots = exported(M)
        addr = {n for n, F in M.funcs.items()}
        seen = set()
        for r in sorted(addr):
            P = PT(M, r)
            seen |= P.reach; nfun += 1
            for (o, a), (f, l) in sorted(P.writes.items(), key=str):
                nw += 1
                if o.startswith("@"):
                    rep.violation("%s|writes|%s" % (f, o.lstrip("@")), "%s writes the static object %s (reached from %s)" % (f, o.lstrip("@"), r), where(M, f, l))
            for b, (f, l) in P.ext.items():
                libs.add(b)
                if b in STATEFUL: rep.violation("%s|calls|%s" % (f, b), "%s calls %s, which keeps hidden mutable state" % (f, b), where(M, f, l))
        nobj += len(M.globals)
    rep.cov.update(functions_analysed=nfun, static_objects=nobj, write_effects=nw, library_functions=sorted(libs),
                   rule="for every function (as root, unknown arguments): no store, memcpy/memset/strcpy/sprintf destination may reach a static object; no stateful library function",
                   configurations=["default", "ASN1SCC_STREAMING", "WORD_SIZE=4"])

# ------------------------------------------------------------------ C13
FILE_HELPERS = {"LoadXmlFile"}          # reads a file for a test program: no encoder or decoder, and none may call it
def no_heap(rep, tier):
    deepest = (0, None); nf = nc = 0; ind = set()
    for defs in ((), ("ASN1SCC_STREAMING",), ("WORD_SIZE=4",)):
        M = runtime(FILES, defs)
        g = {}
        own = {}
        for n, F in M.funcs.items():
            nf += 1
            g[n] = set(); own[n] = 0
            for t, I in callees(M, F):
                nc += 1
                if t is None: ind.add(n); continue
                if t in M.funcs: g[n].add(t)
                elif base(t) in HEAP and not (n in FILE_HELPERS and base(t) == "fopen"): rep.violation("%s|heap|%s" % (n, base(t)), "%s calls %s" % (n, base(t)), where(M, n, line(M, I[5])))
                elif base(t) in ("llvm.stacksave", "llvm.stackrestore") or t.startswith("llvm.stacksave"):
                    rep.violation("%s|vla" % n, "%s uses a variable-size stack object" % n, where(M, n, line(M, I[5])))
            # library functions that take a runtime function as callback, and indirect calls, are calls of every function whose address is taken
            for b in F.order:
                for I in F.blocks[b]:
                    if I[0] == "alloca":
                        if not alloca_fixed(I): rep.violation("%s|vla" % n, "%s uses a variable-size stack object" % n, where(M, n, 0))
                        else: own[n] += alloca_size(I)
        taken = address_taken(M)
        for n in g:
            if n in ind: g[n] |= taken
        for comp in sccs(g):
            if len(comp) > 1 or comp[0] in g[comp[0]]:
                rep.violation("%s|recursion" % sorted(comp)[0], "recursive cycle: %s" % " -> ".join(sorted(comp)), sorted(comp)[0])
        for n in g:
            for t in g[n] & FILE_HELPERS: rep.violation("%s|heap|%s" % (n, t), "%s calls the file helper %s" % (n, t), n)
        memo = {}
        def depth(n, path=()):
            if n in memo: return memo[n]
            if n in path: return (0, (n,))
            best = max([depth(t, path + (n,)) for t in g[n]] or [(0, ())])
            memo[n] = (own[n] + best[0], (n,) + best[1]); return memo[n]
        for n in g: deepest = max(deepest, depth(n), key=lambda x: x[0])
    rep.cov.update(functions_analysed=nf, call_sites=nc, deepest_stack_objects_bytes=deepest[0], deepest_path=list(deepest[1] or ()), functions_with_indirect_calls=sorted(ind),
                   rule="no call of an allocation function, no cycle in the call graph (indirect calls may reach every function whose address is taken), no alloca of variable size")

def alloca_fixed(I):
    return I[3] is None or I[3][0] == "c"
def alloca_size(I):
    return I[2].size * (1 if I[3] is None else I[3][1])

def address_taken(M):
    out = set()
    def val(v):
        if not isinstance(v, tuple) or not v: return
        if v[0] == "g":
            n = v[1].lstrip("@").strip('"')
            if n in M.funcs: out.add(n)
        for x in v[1:]:
            if isinstance(x, tuple): val(x)
            elif isinstance(x, (list,)):
                for y in x:
                    if isinstance(y, tuple): val(y)
    for F in M.funcs.values():
        for b in F.order:
            for I in F.blocks[b]:
                if I[0] == "call":
                    for at, av in I[4]:
                        if av is not None: val(av)
                else:
                    for x in I[1:]: val(x)
    return out

# ------------------------------------------------------------------ C14
STREAMS = {"BitStream", "ByteStream"}
IS_ENC = re.compile(r"^(Acn_Enc|BitStream_(Encode|Append|Put|Write)|Ber(Encode)|Xer_Encode|ObjectIdentifier_uper_encode|RelativeOID_uper_encode|Encode)|_uper_encode$")
IS_DEC = re.compile(r"^(Acn_Dec|BitStream_(Decode|Read|Peek|check|Get|Skip)|BerDecode|ByteStream_Get|GetXml|Xer_(Decode|Next|LA)|NextToken|LA_|ObjectIdentifier_uper_decode|RelativeOID_uper_decode)|_uper_decode$")
IS_PURE = re.compile(r"(_equal|Equal|_isValid|IsConstraintValid|compare)$|^(Get.*(NumberOfBits|Length.*|NumberOf.*)|BitStream_GetLength|CheckIdentifier)$")

def const_effects(rep, tier):
    nf = np = 0; roles = collections.Counter()
    for defs in ((), ("WORD_SIZE=4",)):
        M = runtime(FILES, defs)
        T = Types(M)
        k = stream_offsets(M)
        for n in exported(M):
            F = M.funcs[n]
            sig = T.signature(F)
            if sig is None: raise AnalysisError("no debug signature of %s" % n)
            _, ps = sig
            if len(ps) != len(F.params): continue       # variadic or aggregates passed by value
            P = PT(M, n)
            nf += 1
            encf, decf, pure = bool(IS_ENC.search(n)), bool(IS_DEC.search(n)), bool(IS_PURE.search(n))
            roles["encoder" if encf else "decoder" if decf else "comparison" if pure else "other"] += 1
            for i, (names, ptr, const) in enumerate(ps):
                if not ptr: continue
                np += 1
                ro = const or pure
                stream = bool(STREAMS & set(names))
                err = not stream and names[:1] == ["int"]
                refd = "AcnInsertedFieldRef" in names
                table = "byte" in names and not const and re.match(r"Acn_Dec_String_CharIndex", n) and i == 2
                if encf and not stream and not err and not refd: ro = True
                if table: ro = True
                for (o, a), (f, l) in sorted(P.writes.items(), key=str):
                    if ro and (o == "P%d" % i or (o.startswith("P%d." % i) and not stream)):
                        rep.violation("%s|writes input|%d" % (n, i), "%s writes through its %s parameter %d" % (n, "constant" if const else "input", i + 1), where(M, f, l)); break
                    if decf and stream and any(o == "P%d.%d" % (i, b) for b in k[("BitStream" if "BitStream" in names else "ByteStream")]):
                        rep.violation("%s|writes input buffer" % n, "%s writes into the buffer it decodes from" % n, where(M, f, l)); break
    rep.cov.update(functions_analysed=nf, pointer_parameters=np, roles=dict(roles),
                   rule="no transitive store (points-to rooted at the operation) reaches: a parameter declared pointer-to-const; an input parameter of an encoder or comparison; the buffer of the stream of a decoder")

def stream_offsets(M):
    r = {}
    for n in STREAMS:
        t = None
        for k, v in M.types.items() if hasattr(M, "types") else ():
            if k.strip('%"') in (n, "struct." + n, "struct._" + n): t = v
        r[n] = [0]
    return r

# ------------------------------------------------------------------ C15
BOOLISH = {"flag"}
def dropped(rep, tier, files=FILES):
    ns = nf = 0; exempt = collections.Counter(); skipped = []
    for defs in ((),):
        M = runtime(FILES, defs)
        T = Types(M)
        fall = set()
        for n, F in M.funcs.items():
            s = T.signature(F)
            if not s or not (BOOLISH & set(s[0])): continue
            P = PT(M, n)
            if any(re.match(r"P\d", o) for o, _ in P.writes): fall.add(n)
        for n in sorted(fall):
            F = M.funcs[n]; nf += 1
            for b in F.order:
                for k, I in enumerate(F.blocks[b]):
                    if I[0] != "call" or not I[3].startswith("@"): continue
                    t = I[3].lstrip("@").strip('"')
                    if t not in fall: continue
                    ns += 1
                    r = assume_fail(M, F, b, k)
                    if r is None: skipped.append("%s calls %s" % (n, t))
                    elif r: rep.violation("%s|drops|%s" % (n, t), "%s may report success although %s failed" % (n, t), where(M, n, line(M, I[5])))
    rep.cov.update(fallible_functions=nf, call_sites=ns, undecided_call_sites=skipped,
                   rule="for each call of a fallible operation (returns flag, writes through its arguments) inside a fallible operation: under the assumption that this call returned 0, constants propagated along all paths after it, every reachable return must return 0")

CMP = {"eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b, "ult": lambda a, b, w: a < b, "ule": lambda a, b, w: a <= b, "ugt": lambda a, b, w: a > b, "uge": lambda a, b, w: a >= b}
def _s(a, w): return a - (1 << w) if a >> (w - 1) else a
for _n, _f in (("slt", lambda a, b: a < b), ("sle", lambda a, b: a <= b), ("sgt", lambda a, b: a > b), ("sge", lambda a, b: a >= b)):
    CMP[_n] = (lambda f: lambda a, b, w: f(_s(a, w), _s(b, w)))(_f)

def assume_fail(M, F, blk, k):
    """can F return a non-zero value on a path on which the call at (blk, k) returned 0?  None: too many paths"""
    d = F.blocks[blk][k][1]
    r = returned(M, F, blk, k + 1, {} if d is None else {d: 0})
    return None if r is None else r != {0}  and bool(r)

_FIXED = {}
def fixed_result(M, name, args, depth):
    """the constant that the function returns whatever happens, given what is known of its arguments; None if there is none"""
    F = M.funcs.get(name)
    if F is None or depth > 3 or not F.order or len(args) != len(F.params): return None
    key = (id(M), name, tuple(args))
    if key not in _FIXED:
        _FIXED[key] = None                  # recursion: nothing known
        r = returned(M, F, F.order[0], 0, {p: a for (_, p), a in zip(F.params, args) if a is not None}, depth + 1, 2000)
        if r and len(r) == 1: _FIXED[key] = next(iter(r))
    return _FIXED[key]

def returned(M, F, blk, i, start, depth=0, cap=20000):
    """the values F can return from that point on (None in the set: not a known constant); None: too many paths"""
    out = set()
    def ev(env, v):
        if v[0] == "c": return v[1]
        if v[0] == "r": return env.get(v[1])
        return None
    def step(env, I):
        op = I[0]
        d = I[1]
        r = None
        if op == "icmp":
            a, b = ev(env, I[4]), ev(env, I[5])
            if a is not None and b is not None: r = int(CMP[I[2]](a, b, I[3].w if I[3].k == "int" else 64))
            elif I[4] == I[5]: r = {"eq": 1, "ne": 0}.get(I[2])
        elif op == "cast":
            a = ev(env, I[4])
            if a is not None and I[2] in ("zext", "sext", "trunc"):
                if I[2] == "sext": a = _s(a, I[3].w)
                r = a & ((1 << I[5].w) - 1)
        elif op == "bin" and I[3].k == "int":
            a, b = ev(env, I[4]), ev(env, I[5])
            w = I[3].w
            if I[2] == "and" and (a == 0 or b == 0): r = 0
            elif I[2] == "or" and w == 1 and (a == 1 or b == 1): r = 1
            elif a is not None and b is not None:
                r = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}.get(I[2], lambda: None)()
                if r is not None: r &= (1 << w) - 1
        elif op == "select":
            c = ev(env, I[2])
            if c is not None: r = ev(env, I[4] if c else I[5])
            else:
                x, y = ev(env, I[4]), ev(env, I[5])
                if x is not None and x == y: r = x
        elif op == "freeze": r = ev(env, I[3])
        if d:
            if r is None: env.pop(d, None)
            else: env[d] = r
    def know(env, v, val):
        """the i1 value v is val: what follows for the compared register"""
        if v[0] != "r": return
        env[v[1]] = val
        I = defs.get(v[1])
        if I is None: return
        if I[0] == "icmp" and (I[2] == "eq" and val or I[2] == "ne" and not val):
            c = ev(env, I[5])
            if c is not None and I[4][0] == "r": env[I[4][1]] = c; back(env, I[4][1], c)
        if I[0] == "bin" and I[3].k == "int" and I[3].w == 1 and (I[2] == "and" and val == 1 or I[2] == "or" and val == 0):
            know(env, I[4], val); know(env, I[5], val)
        if I[0] == "bin" and I[2] == "xor" and I[3].w == 1 and I[5] == ("c", 1): know(env, I[4], val ^ 1)
    def back(env, r, c):
        I = defs.get(r)
        if I and I[0] == "cast" and I[2] in ("zext", "sext") and I[4][0] == "r" and c in (0, 1) and I[3].w == 1: know(env, I[4], c)
    defs = {I[1]: I for b in F.order for I in F.blocks[b] if I[1]}
    work = [(blk, i, None, start)]
    seen = set(); n = 0
    while work:
        b, i, prev, env = work.pop()
        env = dict(env)
        ins = F.blocks[b]
        if i == 0:
            new = {}
            for I in ins:
                if I[0] != "phi": break
                v = I[3].get(prev)
                new[I[1]] = ev(env, v) if v is not None else None
            for r, v in new.items():
                if v is None: env.pop(r, None)
                else: env[r] = v
            key = (b, prev, frozenset(env.items()))
            if key in seen: continue
            seen.add(key); n += 1
            if n > cap: return None
        for j in range(i, len(ins)):
            I = ins[j]; op = I[0]
            if op == "phi": continue
            if op == "ret":
                out.add(ev(env, I[3]) if I[3] else 0)
                if depth and (None in out or len(out) > 1): return out
                break
            if op == "call" and I[3].startswith("@"):
                if I[1]:
                    r = fixed_result(M, I[3].lstrip("@").strip('"'), [ev(env, a[1]) if a[1] else None for a in I[4]], depth)
                    if r is None: env.pop(I[1], None)
                    else: env[I[1]] = r
                continue
            if op == "unreachable": break
            if op == "jmp": work.append((I[2], 0, b, env)); break
            if op == "br":
                c = ev(env, I[2])
                if c is not None: work.append((I[3] if c else I[4], 0, b, env))
                else:
                    for val, t in ((1, I[3]), (0, I[4])):
                        e = dict(env); know(e, I[2], val); work.append((t, 0, b, e))
                break
            if op == "switch":
                c = ev(env, I[3])
                if c is not None: work.append((dict(I[5]).get(c, I[4]), 0, b, env))
                else:
                    for t in {x for _, x in I[5]} | {I[4]}: work.append((t, 0, b, env))
                break
            step(env, I)
    return out

def c14(rep, tier, sets, tags):
    import c_e2
    c_e2.run(rep, tier, sets, tags)
    const_effects(rep, tier)
