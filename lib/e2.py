"""E2 harness: scenarios for the bit-provenance interpreter, run in parallel over a forked engine."""
import signal, multiprocessing as mp, os, sys, time, traceback
import bitdom
from bitdom import *
from bitdom import simp
from bitinterp import *
from cprog import *
import witness as WIT

ACCESS = r'''
#include <stddef.h>
#include "asn1crt_encoding_acn.h"
#include "asn1crt_encoding_uper.h"
const long vf_err_mismatch = ERR_ACN_DET_CONSISTENCY_MISMATCH;
const long vf_bs_size = sizeof(BitStream), vf_bs_buf = offsetof(BitStream, buf), vf_bs_count = offsetof(BitStream, count), vf_bs_cbyte = offsetof(BitStream, currentByte),
  vf_bs_cbit = offsetof(BitStream, currentBit), vf_bs_push = offsetof(BitStream, pushDataPrm), vf_bs_fetch = offsetof(BitStream, fetchDataPrm), vf_long = sizeof(long),
  vf_oid_size = sizeof(Asn1ObjectIdentifier), vf_oid_n = offsetof(Asn1ObjectIdentifier, nCount), vf_oid_v = offsetof(Asn1ObjectIdentifier, values), vf_real = sizeof(asn1Real),
  vf_det_size = sizeof(AcnInsertedFieldRef), vf_ys_size = sizeof(ByteStream), vf_ys_buf = offsetof(ByteStream, buf), vf_ys_count = offsetof(ByteStream, count),
  vf_ys_cbyte = offsetof(ByteStream, currentByte), vf_ys_white = offsetof(ByteStream, EncodeWhiteSpace), vf_word = sizeof(asn1SccUint);
void *const vf_keep[] = {
#define K(n) (void*)Acn_InitDet_##n, (void*)Acn_PatchDet_##n,
K(U8) K(U16_BE) K(U32_BE) K(U64_BE) K(U16_LE) K(U32_LE) K(U64_LE) K(I8) K(I16_BE) K(I32_BE) K(I64_BE) K(BOOL1) K(ConstSize) K(TwosComplement_ConstSize)
(void*)Acn_BitStream_DistanceInBytes, (void*)Acn_BitStream_DistanceInBits, 0};
'''

class SpecFail(Exception):
    """the reference decoder rejects the input"""

class Ctx:
    """program + layout"""
    def __init__(self, mod, **kw):
        self.M = mod
        self.E = Engine(mod, **kw)
        self.k = {}
        for n, o in self.E.base.items():
            if n.startswith("@vf_") and n != "@vf_keep":
                st = self.E.state(); sz = len(o.cells)
                self.k[n[4:]] = self.E.load(st, Ptr(n, 0), sz, sz * 8)
        self.k["be"] = 0
        self.mach, self.block = None, None
        self.W = self.k["word"] * 8
        self.LW = self.k["long"] * 8

class Mach:
    """one scenario: a state with a bit stream over a buffer"""
    def __init__(self, c):
        self.c, self.E = c, c.E
        self.st = c.E.state()

    def buf(self, nbytes, cells=None, name="buffer"):
        self.n = nbytes
        self.cells0 = cells if cells is not None else [tuple(reversed(fresh_bits("%s%d" % (name[0], i), 8))) for i in range(nbytes)]
        self.cells0 = [simp(x) if isinstance(x, tuple) else x for x in self.cells0]
        self.b = self.E.obj(self.st, nbytes, name, list(self.cells0))
        return self.b

    def bs(self, pos, count=None, ptr=None):
        k = self.c.k
        self.pos = pos
        o = self.o = self.E.obj(self.st, k["bs_size"], "bit stream", None)
        E, st = self.E, self.st
        E.store(st, Ptr(o, k["bs_buf"]), Ptr(self.b, 0), E.psz, E.pw)
        E.store(st, Ptr(o, k["bs_count"]), self.n if count is None else count, k["long"], self.c.LW)
        E.store(st, Ptr(o, k["bs_cbyte"]), pos // 8, k["long"], self.c.LW)
        E.store(st, Ptr(o, k["bs_cbit"]), pos % 8, 4, 32)
        E.store(st, Ptr(o, k["bs_push"]), 0, E.psz, E.pw)
        E.store(st, Ptr(o, k["bs_fetch"]), 0, E.psz, E.pw)
        return Ptr(o, 0)

    def posof(self, st):
        k = self.c.k
        a = st.F.N(self.E.load(st, Ptr(self.o, k["bs_cbyte"]), k["long"], self.c.LW))
        b = st.F.N(self.E.load(st, Ptr(self.o, k["bs_cbit"]), 4, 32))
        if isinstance(a, int) and isinstance(b, int): return sgn(a, self.c.LW) * 8 + sgn(b, 32)
        return (a, b)

    def out(self, n, name="output"):
        return Ptr(self.E.obj(self.st, n, name, None), 0)

    def data(self, cells, name="value"):
        return Ptr(self.E.obj(self.st, len(cells), name, list(cells)), 0)

    def bits0(self):
        """initial buffer, most significant bit of each byte first"""
        r = []
        for c in self.cells0:
            b = c if isinstance(c, tuple) else tobv(c, 8)
            r.extend(reversed(b))
        return r

    def bitsnow(self, st, oid=None):
        r = []
        for i in range(len(st.mem[oid or self.b].cells)):
            v = self.E.load(st, Ptr(oid or self.b, i), 1, 8)
            r.extend(reversed(st.F.bits(v, 8)))
        return r

    def changed(self, st):
        """has the (input) buffer been written?"""
        return st.mem[self.b].cells != self.cells0
    def user0(self): return {}

    def run(self, fn, args):
        E = self.E
        if fn not in E.M.funcs: raise AnalysisError("operation %s is not defined in the runtime" % fn)
        F = E.M.funcs[fn]
        if len(F.params) != len(args): raise AnalysisError("operation %s takes %d arguments, expected %d" % (fn, len(F.params), len(args)))
        self.st.user = self.user0()
        av = []
        for (t, _), a in zip(F.params, args):
            if isinstance(a, int): a &= (1 << t.w) - 1
            av.append(a)
        E.call(self.st, fn, av)
        return E.run(self.st)

class StreamMach(Mach):
    """a scenario in the streaming configuration: the operation sees a window of c.block bytes, the hooks move it along the message.
    The message is the flat sequence of cells; the hook loads the next window with the (unknown) contents the flat buffer has there."""
    def buf(self, nbytes, cells=None, name="buffer"):
        B = self.c.block
        n = (nbytes // B + 3) * B
        self.flatlen = nbytes
        self.n = nbytes
        self.cells0 = list(cells) if cells is not None else []
        self.cells0 += [tuple(reversed(fresh_bits("%s%d" % (name[0], i), 8))) for i in range(len(self.cells0), n)]
        self.cells0 = [simp(x) if isinstance(x, tuple) else x for x in self.cells0]
        self.b = self.E.obj(self.st, B, "transfer buffer", [0] * B)
        return self.b
    def window(self, k):
        B = self.c.block
        w = self.cells0[k * B:(k + 1) * B]
        return w + [simp(tuple(reversed(fresh_bits("x%d" % i, 8)))) for i in range(len(w), B)]
    def bs(self, pos, count=None, ptr=None):
        B, k = self.c.block, self.c.k
        self.k0 = pos // (8 * B)
        self.st.w(self.b).cells[:] = self.window(self.k0)
        p = Mach.bs(self, pos - 8 * B * self.k0, B)
        self.pos = pos
        self.token = self.E.obj(self.st, 1, "hook parameter", None)
        for f in ("bs_push", "bs_fetch"): self.E.store(self.st, Ptr(self.o, k[f]), Ptr(self.token, 0), self.E.psz, self.E.pw)
        return p
    def user0(self): return {"mach": self, "blk": self.k0, "done": (), "hooks": ()}
    def posof(self, st):
        q = Mach.posof(self, st)
        return q + 8 * self.c.block * st.user["blk"] if isinstance(q, int) else q
    def bitsnow(self, st, oid=None):
        if oid not in (None, self.b): return Mach.bitsnow(self, st, oid)
        B = self.c.block
        r = self.bits0()
        for k, cells in st.user["done"] + ((st.user["blk"], None),):
            for i in range(B):
                v = self.E.load(st, Ptr(self.b, i), 1, 8) if cells is None else cells[i]
                at = 8 * (k * B + i)
                r[at:at + 8] = list(reversed(st.F.bits(v, 8)))
        return r
    def changed(self, st): return any(w[:len(w)] != c for w, c in ((self.cells0[st.user["blk"] * self.c.block:(st.user["blk"] + 1) * self.c.block], st.mem[self.b].cells),) if len(w) == len(c))

def stream_hook(which):
    def h(E, st, fr, a, ins):
        m = st.user["mach"]
        B = m.c.block
        a = [v for _, v in a]
        if not (isinstance(a[0], Ptr) and a[0].o == m.o): raise Event("oob", "%sData is called for another stream" % which)
        if not (isinstance(a[1], Ptr) and a[1].o == m.token): raise Event("oob", "%sData is called with another parameter" % which)
        q = Mach.posof(m, st)
        if q // 8 != B: raise Event("hook", "%sData is called with the position at bit %s of a buffer of %d bits" % (which, q, 8 * B))
        st.user["done"] += ((st.user["blk"], [E.load(st, Ptr(m.b, i), 1, 8) for i in range(B)]),)
        st.user["blk"] += 1
        st.user["hooks"] += (which,)
        st.w(m.b).cells[:] = m.window(st.user["blk"])
        return None
    return h

STREAM_HOOKS = {"fetchData": stream_hook("fetch"), "pushData": stream_hook("push")}

class ByteMach(Mach):
    """a scenario over a byte stream (BER, XER): positions are multiples of 8"""
    white = 0
    def bs(self, pos, count=None, ptr=None):
        k = self.c.k
        self.pos = pos
        E, st = self.E, self.st
        o = self.o = E.obj(st, k["ys_size"], "byte stream", None)
        E.store(st, Ptr(o, k["ys_buf"]), Ptr(self.b, 0), E.psz, E.pw)
        E.store(st, Ptr(o, k["ys_count"]), self.n if count is None else count, k["long"], self.c.LW)
        E.store(st, Ptr(o, k["ys_cbyte"]), pos // 8, k["long"], self.c.LW)
        E.store(st, Ptr(o, k["ys_white"]), self.white, 1, 8)
        return Ptr(o, 0)
    def posof(self, st):
        k = self.c.k
        a = st.F.N(self.E.load(st, Ptr(self.o, k["ys_cbyte"]), k["long"], self.c.LW))
        return sgn(a, self.c.LW) * 8 if isinstance(a, int) else a

def decide(F, l):
    l = F.L(l)
    if l > 1: raise NeedBit(l)
    return l

class Reader:
    """the reference decoder's view of the input"""
    def __init__(self, F, bits, pos, n):
        self.F, self.b, self.p, self.n = F, bits, pos, n
        self.p0 = pos
    def take(self, k):
        if self.p + k > self.n: raise SpecFail("truncated")
        r = self.b[self.p:self.p + k]; self.p += k
        return r
    def u(self, k, w=64):
        """k bits as an unsigned number of width w"""
        r = self.take(k)
        return self.F.N(simp(tuple(reversed(r)) + (0,) * (w - k))) if k <= w else None
    def left(self): return self.n - self.p

def by_spec(F, fn):
    """evaluates fn(F) on every partition the reference needs: yields (facts, result)"""
    work = [F.copy()]      # the state's own facts stay as they are: memory is read under them
    while work:
        f = work.pop()
        try:
            yield f, fn(f)
        except NeedBit as nb:
            a = f.copy()
            if a.try_assign(nb.l ^ 1): work.append(a)
            if f.try_assign(nb.l): work.append(f)
        except Infeasible: pass

def same(F, a, b, w):
    """are the two w-bit values equal under the facts?"""
    a, b = F.N(a), F.N(b)
    if a == b: return True
    if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)): return False
    l = F.L(F.eq(a, b, w))
    return l == 1

def show(F, v, w=64):
    v = F.N(v)
    if isinstance(v, int): return hex(v)
    if isinstance(v, tuple): return "".join("?" if l > 1 else str(l) for l in reversed(v[:w]))
    return repr(v)

class Top:
    """a byte of which only the leading bits are specified"""
    def __init__(self, b): self.b = b

def conc(F, v, w):
    """the number as an integer, partitioning if needed"""
    v = F.N(v)
    if isinstance(v, int): return v
    r = 0
    for i, l in enumerate(F.bits(v, w)):
        if decide(F, l): r |= 1 << i
    return r

class V:
    """a violation found in one scenario"""
    __slots__ = ("tag", "fn", "msg", "label")
    def __init__(self, tag, fn, msg, label): self.tag, self.fn, self.msg, self.label = tag, fn, msg, label

TAG = {"oob": "mem", "abort": "abort", "ub": "ub", "uninit": "init", "rowrite": "const", "recursion": "rec", "budget": "budget", "imprecise": "undecided", "hook": "hook"}

CONFIRMED = {}
def found(out, F, tag, fn, msg, label, cond=None, extra=()):
    """reports a violation if the partition F contains an input (satisfying cond)"""
    if CONFIRMED.get((tag, fn), 0) < 2:
        r, sg = WIT.witness(F, cond, extra)
        if r == "no": return False
        if r == "unknown": tag = "undecided"
        else:
            CONFIRMED[tag, fn] = CONFIRMED.get((tag, fn), 0) + 1
            if r == "yes" and sg: msg += "; e.g. " + WIT.describe(sg)
    out.append(V(tag, fn, msg, label))
    return True

def fault_of(s, fn, label, out):
    bad = False
    for kind, msg, where in s.events:
        found(out, s.F, TAG.get(kind, kind), fn, "%s [%s]" % (msg, where), label)
        if kind != "uninit": bad = True
    return bad or "fault" in s.user

def errcode(out, s, F, fn, ok, label):
    """failure comes with an error code (operations that are given an error code object)"""
    for o in s.mem.values():
        if o is None or getattr(o, "name", None) not in ("err", "error code") or len(o.cells) != 4: continue
        cl = o.cells[:4]
        zero = all(x is None for x in cl) or all(isinstance(x, int) and x == 0 for x in cl)
        if not ok and zero: found(out, F, "code", fn, "reports failure without an error code", label)

def vneq(a, b, w):
    """condition: the two values differ"""
    if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)): return None
    return WIT.Differ(a, b, w)

# -------------------------------------------------------------------- encoders
def enc(c, fn, args, expect, pos, label="", prep=None, retflag=None, zero=False, slack=0, value_objs=(), setup=None, mach=None):
    """One encoding step at bit position `pos` of a buffer with exactly the room it needs and unknown contents.
    args(m, bs) -> argument list; expect(F) -> expected bits (most significant first), may ask for partitions."""
    out = []
    m = (mach or c.mach or Mach)(c)
    probe = setup(m) if setup else None
    ex0 = expect if isinstance(expect, list) else None
    n_bits = len(ex0) if ex0 is not None else expect.size
    nb = (pos + n_bits + 7) // 8 + slack
    m.buf(max(nb, 1) if slack or nb else 1, [0] * max(nb, 1) if zero else None)
    if nb == 0: m.n = 0
    bs = m.bs(pos)
    a = args(m, bs, probe)
    before = {p.o: list(m.st.mem[p.o].cells) for p in a if isinstance(p, Ptr) and p.o != m.o and p.o != m.b and m.st.mem[p.o].name != "error code"}
    b0 = m.bits0()
    npaths = 0
    for s in m.run(fn, a):
        npaths += 1
        if fault_of(s, fn, label, out): continue
        F = s.F
        if "fetch" in s.user.get("hooks", ()): found(out, F, "hook", fn, "fetches data while encoding", label); continue
        if retflag is not None:
            r = s.user.get("ret")
            if not same(F, r if r is not UNDEF else 2, retflag, 8) and not (isinstance(r, int) and (r & 1) == retflag):
                rr = F.N(r) if r is not UNDEF and r is not None else r
                found(out, F, "ret", fn, "reports %s instead of %s" % (show(F, r, 1) if r is not None else r, retflag), label,
                      (lambda ev, rr=rr: ev.val(rr, 1) != retflag) if isinstance(rr, (tuple, LV)) else None, (rr,)); continue
        q = m.posof(s)
        if q != pos + n_bits:
            found(out, F, "pos", fn, "advances the position by %s bits instead of %d" % (q - pos if isinstance(q, int) else q, n_bits), label); continue
        now = m.bitsnow(s)
        for f, ex in by_spec(F, (lambda f: ex0) if ex0 is not None else expect):
            for i in range(len(now)):
                want = ex[i - pos] if pos <= i < pos + n_bits else b0[i]
                x, y = f.L(now[i]), f.L(want)
                if x == y: continue
                cond = lambda ev: ev.lit(x) != ev.lit(y)
                if pos <= i < pos + n_bits:
                    if found(out, f, "bits", fn, "bit %d of the field is %s, expected %s" % (i - pos, litname(f, x), litname(f, y)), label, cond, ((x, y),)): break
                elif found(out, f, "neigh", fn, "bit %d %s the field is changed (now %s)" % (i, "before" if i < pos else "after", litname(f, x)), label, cond, ((x, y),)): break
            else: continue
            break
        for oid, cells in before.items():
            if s.mem[oid].cells != cells:
                found(out, F, "input", fn, "modifies its input object '%s'" % s.mem[oid].name, label)
    if npaths == 0: out.append(V("ret", fn, "no path of the operation completes", label))
    return out, npaths

def litname(F, l):
    l = F.L(l)
    if l < 2: return str(l)
    n = NAME[l >> 1]
    s = n if n else "f%d" % (l >> 1)
    return ("!" if l & 1 else "") + s

class Exp:
    """expected bits computed under the facts of a path"""
    def __init__(self, size, fn): self.size, self.fn = size, fn
    def __call__(self, F): return self.fn(F)

# -------------------------------------------------------------------- decoders
STEPLOG = os.environ.get("VF_STEPLOG")
def dec(c, fn, args, spec, pos, nbytes, label="", cells=None, init_out=None, setup=None, exact_fail=True, noret=False, mach=None):
    """One decoding step at bit `pos` of an nbytes input of unknown contents, compared with the reference decoder.
    args(m, bs) -> (argument list, {output name: (Ptr, size in bytes)});  spec(F, rd) -> {name: (value, bits) or list of bytes}."""
    out = []
    m = (mach or c.mach or Mach)(c)
    m.buf(nbytes if nbytes else 0, cells, "input")
    bs = m.bs(pos)
    a, outs = args(m, bs)
    b0 = m.bits0()
    c0 = list(m.cells0)
    before = {p.o: list(m.st.mem[p.o].cells) for p in a if isinstance(p, Ptr) and p.o not in (m.o, m.b) and p.o not in {q.o for q, _ in outs.values()}}
    npaths = okp = 0
    for s in m.run(fn, a):
        npaths += 1
        size = nbytes + sum(sz for _, sz in outs.values())
        if STEPLOG: out.append(V("steps", fn, "%d %d" % (s.steps, size), label))
        if fault_of(s, fn, label, out): continue
        F = s.F
        if "push" in s.user.get("hooks", ()): found(out, F, "hook", fn, "pushes data while decoding", label); continue
        if s.steps > 30000 + 400 * size: found(out, F, "work", fn, "takes %d abstract steps for %d bytes of input and outputs" % (s.steps, size), label)
        r = s.user.get("ret")
        if not noret:
            if r is UNDEF or r is None:
                found(out, F, "init", fn, "returns an undefined result", label); continue
            r = F.N(r)
        if m.changed(s):
            found(out, F, "input", fn, "modifies the input buffer", label)
        for oid, cl in before.items():
            if s.mem[oid].cells != cl: found(out, F, "input", fn, "modifies its constant argument '%s'" % s.mem[oid].name, label)
        def ref(f):
            rd = Reader(f, b0, pos, 8 * nbytes if c.mach is None else len(b0))
            try: return rd, spec(f, rd)
            except SpecFail as e: return rd, e
        for f, (rd, ex) in by_spec(F, ref):
            if noret: rv = 1
            else:
                rv = f.N(r)
                if not isinstance(rv, int):
                    l = f.L(rv[0])
                    # flag computed from a comparison: partition
                    okl = l
                    sub = []
                    for val in (1, 0):
                        g = f.copy()
                        if g.try_assign(okl if val else okl ^ 1): sub.append((g, val))
                else: sub = [(f, rv & 1 if rv in (0, 1) else 1)]
            if noret: sub = [(f, 1)]
            for g, ok in sub:
                if not noret: errcode(out, s, g, fn, ok, label)
                if isinstance(ex, SpecFail):
                    if ok:
                        t = "trunc" if str(ex) == "truncated" else "accept"
                        found(out, g, t, fn, "accepts an input the format rejects (%s)" % ex, label)
                        for name, (p, sz) in outs.items():
                            if name != "err" and 0 < sz <= 8 and all(x is None for x in s.mem[p.o].cells[p.off:p.off + sz]):
                                found(out, g, "undef", fn, "reports success without defining %s" % name, label)
                    continue
                if not ok:
                    if exact_fail: found(out, g, "reject", fn, "rejects a valid encoding (result %s)" % {k: (show(g, v[0]) if isinstance(v, tuple) else "...") for k, v in ex.items()}, label)
                    continue
                okp += 1
                q = m.posof(s)
                if q != rd.p:
                    found(out, g, "pos", fn, "consumes %s bits instead of %d" % (q - pos if isinstance(q, int) else q, rd.p - pos), label); continue
                for name, v in ex.items():
                    p, sz = outs[name]
                    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], int) and not isinstance(v, list):
                        cl = s.mem[p.o].cells[p.off:p.off + sz]
                        if any(x is None for x in cl):
                            found(out, g, "undef", fn, "reports success without defining %s" % name, label); continue
                        s2 = s
                        got = c.E.load(s, p, sz, sz * 8)
                        if v[0] is None: continue
                        want = v[0]
                        if isinstance(want, int): want &= (1 << (8 * sz)) - 1
                        if isinstance(got, tuple) and isinstance(want, tuple) and len(want) != len(got): want = want[:len(got)]
                        if isinstance(want, LV) and want.w != 8 * sz: want = g.trunc(want, want.w, 8 * sz)
                        if not same(g, got, want, 8 * sz):
                            if found(out, g, "value", fn, "%s is %s, expected %s" % (name, show(g, got), show(g, want)), label, vneq(got, want, 8 * sz), (got, want)) and name == "n":
                                out.append(V("count", fn, "counts %s items instead of %s" % (show(g, got), show(g, want)), label))
                    else:
                        for i, want in enumerate(v):
                            if want is None: continue
                            x = s.mem[p.o].cells[p.off + i]
                            if x is None:
                                found(out, g, "undef", fn, "reports success without defining %s[%d]" % (name, i), label); break
                            got = c.E.load(s, Ptr(p.o, p.off + i), 1, 8)
                            if hasattr(want, "l"):          # flag: zero exactly when the literal is 0
                                nz = g.L(g.eq(g.N(got), 0, 8)) ^ 1
                                if nz != g.L(want.l):
                                    wl = want.l; gg = got
                                    if found(out, g, "value", fn, "%s does not reflect the bit read" % name, label, lambda ev: (ev.val(gg, 8) != 0) != bool(ev.lit(wl)), (gg, (wl,))): break
                                continue
                            if hasattr(want, "pat"):
                                l = 1
                                for x_, y_ in zip(want.bits, want.pat): l = AND(l, g.L(x_) if y_ else g.L(x_) ^ 1)
                                l = g.L(l)
                                nz = g.L(g.eq(g.N(got), 0, 8)) ^ 1
                                if nz != l:
                                    gg = got; wl = l
                                    if found(out, g, "value", fn, "%s does not tell whether the pattern is present" % name, label, lambda ev: (ev.val(gg, 8) != 0) != bool(ev.lit(wl)), (gg, (wl,))): break
                                continue
                            if isinstance(want, Top):
                                gb = list(reversed(g.bits(g.N(got), 8)))[:len(want.b)]
                                if [g.L(x) for x in gb] != [g.L(x) for x in want.b]:
                                    wb = want.b
                                    if found(out, g, "value", fn, "%s: bits of item byte %d differ from the wire" % (name, i), label,
                                             lambda ev: any(ev.lit(x) != ev.lit(y) for x, y in zip(gb, wb)), (tuple(gb), tuple(wb))): break
                                continue
                            if not same(g, got, want, 8):
                                if found(out, g, "value", fn, "%s[%d] is %s, expected %s" % (name, i, show(g, got, 8), show(g, want, 8)), label, vneq(got, want, 8), (got, want)): break
    if npaths == 0: out.append(V("ret", fn, "no path of the operation completes", label))
    return out, npaths

# -------------------------------------------------------------------- parallel running
_JOBS = None; _CTX = None
JOB_LIMIT = 100         # seconds for one scenario
class JobTimeout(BaseException): pass
def _alarm(*_): raise JobTimeout()

def _work(idx):
    t0 = time.time()
    res, und, paths, n = [], [], 0, 0
    base = (len(bitdom.DEF), dict(bitdom._HC))
    for i in idx:
        job = _JOBS[i]
        c = _CTX
        try:
            signal.setitimer(signal.ITIMER_REAL, (getattr(c, 'job_limit', None) or JOB_LIMIT) * (3 if getattr(job.fn, "heavy", False) else 1))
            r = job(c)
            signal.setitimer(signal.ITIMER_REAL, 0)
            vs, np_ = r if isinstance(r, tuple) else (r, 1)
            res.extend((v.tag, v.fn, v.msg, v.label) for v in vs); paths += np_; n += 1
        except Unsupported as e:
            und.append((getattr(job, "name", "?"), str(e)))
        except AnalysisError as e:
            und.append((getattr(job, "name", "?"), "anchor: " + str(e)))
        except JobTimeout:
            und.append((getattr(job, "name", "?"), "time limit of the scenario"))
        except RecursionError:
            und.append((getattr(job, "name", "?"), "recursion in the domain"))
        except Exception as e:
            und.append((getattr(job, "name", "?"), "internal: " + traceback.format_exc(limit=-3)[-400:]))
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        # forget the symbols of this scenario
        del bitdom.DEF[base[0]:]; del bitdom.NAME[base[0]:]
        bitdom._HC.clear(); bitdom._HC.update(base[1]); bitdom._REM.clear()
    return res, und, paths, n, _CTX.E.total_steps, sorted(_CTX.E.visited), time.time() - t0

def run_jobs(ctx, jobs, workers=None, chunk=None, stop=None, limit=None):
    """jobs: callables (ctx) -> (violations, paths) with attribute .name; returns aggregated result"""
    global _JOBS, _CTX
    _JOBS, _CTX = jobs, ctx
    workers = workers or NCPU
    chunk = chunk or max(1, min(40, len(jobs) // (workers * 12) + 1))
    idx = list(range(len(jobs)))
    import random
    random.Random(7).shuffle(idx)
    heavy = [i for i in idx if getattr(jobs[i].fn, "heavy", False)]
    hs = set(heavy); idx = [i for i in idx if i not in hs]
    heavy.sort(key=lambda i: -getattr(jobs[i], "weight", 0))
    chunks = [[i] for i in heavy] + [idx[i:i + chunk] for i in range(0, len(idx), chunk)]
    R = dict(viol=[], undecided=[], paths=0, scenarios=0, steps=0, functions=set())
    if workers == 1:
        it = map(_work, chunks)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(workers, lambda: signal.signal(signal.SIGALRM, _alarm))
        it = pool.imap_unordered(_work, chunks)
    end = time.time() + (limit or getattr(ctx, 'limit', 800)); got = 0; early = False
    while got < len(chunks):
        try: r = it.next(max(0.1, end - time.time())) if pool else next(it)
        except mp.TimeoutError: break
        res, und, paths, n, steps, vis, t = r
        got += 1
        R["viol"].extend(res); R["undecided"].extend(und); R["paths"] += paths; R["scenarios"] += n; R["functions"].update(vis)
        if stop and not early and stop(res):        # a violation is established: finish soon
            early = True; end = min(end, time.time() + 30)
    if got < len(chunks):
        R["unfinished"] = True
        if not early: R["undecided"].append(("unfinished", "%d of %d groups of scenarios not reached within the time limit" % (len(chunks) - got, len(chunks))))
    if pool:
        if got < len(chunks): pool.terminate()
        else: pool.close()
        pool.join()
    return R

class Job:
    def __init__(self, name, fn, *a, **k): self.name, self.fn, self.a, self.k = name, fn, a, k
    def __call__(self, c): return self.fn(c, *self.a, **self.k)
