"""What every uPER/ACN primitive of the C runtime must write and read: an independent statement of the wire formats,
and the analysed scenarios (value partitions x bit positions x cut points) for the bit-provenance interpreter."""
from e2 import *
import itertools, struct

LIT2 = ("UInt8", "UInt16", "UInt32")
def lit_bits(v, n):
    """constant -> n literals, most significant first"""
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]

def U(L, w):
    """an unsigned number of exactly L significant bits (all of them): w literals, least significant first"""
    if L == 0: return (0,) * w
    return fresh_bits("v", L - 1) + (1,) + (0,) * (w - L)

def NEGA(v): return tuple(l ^ 1 for l in v)

def msb(v, n): return list(reversed(v[:n]))

def val(v): return simp(tuple(v))

def byte_const(*bs): return [b & 0xff for b in bs]

class Gen:
    """collects jobs; `deep` widens the enumeration, `pick` rotates bit positions so that every operation is seen at all of them"""
    def __init__(self, deep, W=64, positions=None):
        self.deep, self.W, self.jobs, self.i = deep, W, [], 0
        self.allpos = positions
    def pos(self, k=2):
        """bit positions for the next scenario"""
        if self.deep: return range(8)
        self.i += 1
        b = (0, 5, 2, 7, 4, 1, 6, 3)
        s = (self.i * 3) % 8
        return sorted({b[(s + j * (8 // k)) % 8] for j in range(k)})
    def add(self, name, fn, *a, **k):
        j = Job(name, fn, *a, **k)
        if getattr(fn, "heavy", False):      # longest first: the size is in the label
            import re
            j.weight = max([int(x) for y in a if isinstance(y, str) for x in re.findall(r"\d+", y)] or [0])
        self.jobs.append(j)
    # ---- encoders
    def e(self, fn, mkval, expect, args, npos=2, retflag=None, label="", **kw):
        """mkval() -> value object; expect(v) -> literals or Exp; args(v) -> trailing arguments (after the stream), may hold Data objects"""
        for p in self.pos(npos):
            self.add(fn, self.enc1, fn, mkval, expect, args, p, retflag, label, kw)
    # ---- decoders
    def d(self, fn, outs, spec, args, nbits, npos=2, label="", cells=None, exact_fail=True, extra=0, cuts=None, pre=None, lead=True):
        """outs: list of (name, bytes); args: function(outptrs)->argument list after the stream; nbits: length of the longest accepted encoding"""
        for p in self.pos(npos):
            full = (p + nbits + 7) // 8 + extra
            lo = (p + 7) // 8
            cs = list(range(lo, full + 1))
            if cuts == "few" and len(cs) > 4 and not self.deep: cs = sorted({lo, (lo + full) // 2, full - 1, full})
            if cuts == "full": cs = [full]
            if extra == 0: cs.append(full + 9)      # data of the next fields follows
            for n in cs:
                ld = 1 if (lead and (p + n) % 3 == 0) else 0
                self.add(fn, self.dec1, fn, outs, spec, args, p + 8 * ld, n + ld, label, cells, exact_fail, pre)

class Data:
    """an argument that is a (read-only) object of the caller"""
    def __init__(self, cells, name="value", off=0): self.cells, self.name, self.off = cells, name, off

def realise(m, a):
    if isinstance(a, Data):
        p = m.data([simp(x) if isinstance(x, tuple) else x for x in a.cells], a.name)
        return Ptr(p.o, a.off)
    return a

def enc1(c, fn, mkval, expect, args, pos, retflag, label, kw, mach=None):
    v = mkval()
    ex = expect(v)
    kw = dict(kw)
    pre = kw.pop("pre", None)
    def setup(m):
        if pre: pre(m.st.F, v)
    return enc(c, fn, lambda m, bs, _: [bs] + [realise(m, a) for a in args(v)], ex, pos, "%s at bit %d" % (label, pos), retflag=retflag, setup=setup, mach=mach, **kw)

def dec1(c, fn, outs, spec, args, pos, nbytes, label, cells, exact_fail, pre, mach=None):
    def mk(m, bs):
        if pre: pre(m)
        o = {n: (m.out(sz, n), sz) for n, sz in outs}
        a = [bs] + [realise(m, x) for x in args(*[o[n][0] for n, _ in outs])]
        return a, o
    cl = None
    if cells is not None: cl = cells(pos, nbytes)
    return dec(c, fn, mk, spec, pos, nbytes, "%s at bit %d of %d bytes" % (label, pos, nbytes), cells=cl, exact_fail=exact_fail, mach=mach)

Gen.enc1, Gen.dec1 = staticmethod(enc1), staticmethod(dec1)

# ============================================================ helpers of the reference
def unsigned_parts(n, deep, every=False):
    """bit lengths L <= n used as value partitions"""
    if deep or every or n <= 4: return list(range(n + 1))
    return sorted({0, 1, n // 2, n - 1, n} | {x for x in (7, 8, 9, 16, 17, 24, 25, 31, 32, 33, 40, 56, 57, 63) if x < n and (x + n) % 3 == 0})

def fits_u(F, v, w, n):
    """1/0: does the w-bit unsigned value fit n bits (partitions if unknown)"""
    if n >= w: return 1
    return decide(F, F.lt(v, 1 << n, w, False))

def fits_s(F, v, w, n):
    if n >= w: return 1
    t = F.sext(F.trunc(v, w, n), n, w)
    return decide(F, F.eq(v, t, w))

def s_uint(n, w, out=8):
    def spec(F, rd):
        return {"v": (rd.u(n, w), 8 * out)}
    return spec

def s_sint(n, w, out=8):
    def spec(F, rd):
        r = rd.take(n)
        if n == 0: return {"v": (0, 64)}
        b = tuple(reversed(r))
        return {"v": (F.N(simp(b + (b[-1],) * (w - n))), 8 * out)}
    return spec

def s_narrow(inner, w, nout, signed):
    """wrapper: the value must fit the smaller type"""
    def spec(F, rd):
        v = inner(F, rd)["v"][0]
        if not (fits_s if signed else fits_u)(F, v, w, 8 * nout): raise SpecFail("value does not fit the result")
        return {"v": (F.trunc(v, w, 8 * nout), 8 * nout)}
    return spec

def le_order(bits, n):
    """little endian byte order of an n-bit field given most significant bit first"""
    by = [bits[i:i + 8] for i in range(0, n, 8)]
    return [b for x in reversed(by) for b in x]

def s_le(n, w, signed):
    def spec(F, rd):
        b = tuple(reversed(le_order(rd.take(n), n)))
        s = b[-1] if signed else 0
        return {"v": (F.N(simp(b + (s,) * (w - n))), w)}
    return spec

def embedded(w, signed):
    """length octet + big-endian octets"""
    def spec(F, rd):
        n = conc(F, simp(tuple(reversed(rd.take(8)))), 8)
        if n > w // 8: raise SpecFail("length exceeds the native integer")
        r = rd.take(8 * n)
        b = tuple(reversed(r))
        s = (b[-1] if b else 0) if signed else 0
        return {"v": (F.N(simp(b + (s,) * (w - 8 * n))), w)}
    return spec

def ulen(L): return max(1, (L + 7) // 8)
def slen(L): return L // 8 + 1            # L significant bits plus the sign

V_OUT = [("v", 8)]
# ============================================================ fixed width ACN integers and reals (C07)
def fixed(g, enc_=True, dec_=True):
    if enc_: g.add("milbus_encode", milbus, "milbus_encode", 32, 0)
    if dec_: g.add("milbus_decode", milbus, "milbus_decode", 0, 32)
    W = g.W; D = g.deep; WB = W // 8
    out = [("v", WB)]
    widths = range(0, W + 1) if D else [w for w in (0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 55, 56, 57, 63, 64) if w <= W]
    for n in widths:
        if enc_:
            for L in unsigned_parts(n, D):
                g.e("Acn_Enc_Int_PositiveInteger_ConstSize", (lambda L=L: U(L, W)), (lambda v, n=n: msb(v, n)), (lambda v, n=n: [val(v), n]), 1 if n > 32 else 2, label="%d bit value in %d bits" % (L, n))
            if n > 0:
                for L in unsigned_parts(n - 1, D):
                    for neg in (0, 1):
                        g.e("Acn_Enc_Int_TwosComplement_ConstSize", (lambda L=L, neg=neg: NEGA(U(L, W)) if neg else U(L, W)), (lambda v, n=n: msb(v, n)), (lambda v, n=n: [val(v), n]), 1 if n > 16 else 2,
                            label="%s%d bit value in %d bits" % ("negative " if neg else "", L, n))
            if n % 3 == 1:
                g.e("Acn_Enc_Length", (lambda n=n: U(n, W)), (lambda v, n=n: msb(v, n)), (lambda v, n=n: [val(v), n]), 1, label="%d bits" % n)
        if dec_:
            g.d("Acn_Dec_Int_PositiveInteger_ConstSize", out, s_uint(n, W, WB), (lambda v, n=n: [v, n]), n, 2, "%d bits" % n, cuts="few")
            if n: g.d("Acn_Dec_Int_TwosComplement_ConstSize", out, s_sint(n, W, WB), (lambda v, n=n: [v, n]), n, 2, "%d bits" % n, cuts="few")
            if n % 3 == 1: g.d("Acn_Dec_Length", out, s_uint(n, W, WB), (lambda v, n=n: [v, n]), n, 1, "%d bits" % n, cuts="few")
    if dec_:
        for k, sfx in ((1, "Int8"), (2, "Int16"), (4, "Int32")):
            if 8 * k >= W: continue
            for n in sorted({1, 8 * k - 3, 8 * k, 8 * k + 1, 8 * k + 9, W}):
                g.d("Acn_Dec_Int_PositiveInteger_ConstSizeU" + sfx, [("v", k)], s_narrow(s_uint(n, W), W, k, False), (lambda v, n=n: [v, n]), n, 1, "%d bits" % n, cuts="few")
                g.d("Acn_Dec_Int_TwosComplement_ConstSize" + sfx, [("v", k)], s_narrow(s_sint(n, W), W, k, True), (lambda v, n=n: [v, n]), n, 1, "%d bits" % n, cuts="few")
    for base, signed in (("PositiveInteger", False), ("TwosComplement", True)):
        forms = [("_8", 8, False)] + [("_%s_endian_%d" % (en, n), n, en == "little") for en in ("big", "little") for n in (16, 32, 64) if n <= W]
        for sfx, n, le in forms:
            f = "Acn_Enc_Int_%s_ConstSize%s" % (base, sfx)
            if enc_:
                for neg in ((0, 1) if signed else (0,)):
                    mx = n - 1 if signed else n
                    for L in (range(mx + 1) if D else sorted({0, 1, mx // 2, mx - 1, mx})):
                        g.e(f, (lambda L=L, neg=neg: NEGA(U(L, W)) if neg else U(L, W)), (lambda v, n=n, le=le: le_order(msb(v, n), n) if le else msb(v, n)), (lambda v: [val(v)]), 2,
                            label="%s%d bit value" % ("negative " if neg else "", L))
            if dec_:
                f = f.replace("_Enc_", "_Dec_")
                sp = s_le(n, W, signed) if le else (s_sint(n, W, WB) if signed else s_uint(n, W, WB))
                g.d(f, out, sp, (lambda v: [v]), n, 4 if n <= 16 else 2)
                for k in (1, 2, 4):
                    if 8 * k > n or 8 * k >= W or (8 * k == n == W): continue
                    if n == 8 and k == 1 or k * 8 <= n:
                        nm = f + ("Int%d" if signed else "UInt%d") % (8 * k)
                        g.d(nm, [("v", k)], s_narrow(sp, W, k, signed), (lambda v: [v]), n, 1, cuts="few")
        if W == 32:
            for n in (33, 40, 48, 63, 64):
                f = "Acn_Enc_Int_%s_ConstSize" % base
                ext = lambda v, n=n, sg=signed: msb(tuple(v) + ((v[31],) if sg else (0,)) * (n - 32), n)
                if enc_:
                    for neg in ((0, 1) if signed else (0,)):
                        for L in (0, 1, 15, 31): g.e(f, (lambda L=L, neg=neg: NEGA(U(L, W)) if neg else U(L, W)), (lambda v, ext=ext: ext(v)), (lambda v, n=n: [val(v), n]), 1, label="%s%d bit value in %d bits" % ("negative " if neg else "", L, n))
                if dec_:
                    def cellsn(p, nb, ext=ext): return place(p, nb, ext(fresh_bits("v", 32)))
                    def spw(F, rd, n=n): return {"v": (F.N(simp(tuple(reversed(rd.take(n)[n - 32:])))), 32)}
                    g.d(f.replace("_Enc_", "_Dec_"), out, spw, (lambda v, n=n: [v, n]), n, 2, "%d bits" % n, cells=cellsn, cuts="few")
        if W == 32:        # 64-bit fields of the 32-bit profile: the native value extended; the other half of the field is skipped
            for en in ("big", "little"):
                le = en == "little"
                f = "Acn_Enc_Int_%s_ConstSize_%s_endian_64" % (base, en)
                wide = lambda v, sg=signed: msb(tuple(v) + ((v[31],) if sg else (0,)) * 32, 64)
                if enc_:
                    for neg in ((0, 1) if signed else (0,)):
                        for L in (range(32) if D else (0, 1, 15, 30, 31)):
                            g.e(f, (lambda L=L, neg=neg: NEGA(U(L, W)) if neg else U(L, W)), (lambda v, le=le, wide=wide: le_order(wide(v), 64) if le else wide(v)), (lambda v: [val(v)]), 2,
                                label="%s%d bit value" % ("negative " if neg else "", L))
                    if not signed: g.e(f, (lambda: U(32, W)), (lambda v, le=le, wide=wide: le_order(wide(v), 64) if le else wide(v)), (lambda v: [val(v)]), 2, label="32 bit value")
                if dec_:
                    def cells(p, n, le=le, sg=signed):
                        v = fresh_bits("v", 32)
                        b = msb(tuple(v) + ((v[31],) if sg else (0,)) * 32, 64)
                        return place(p, n, le_order(b, 64) if le else b)
                    def sp64(F, rd, le=le):
                        b = rd.take(64)
                        if le: b = le_order(b, 64)
                        return {"v": (F.N(simp(tuple(reversed(b[32:])))), 32)}
                    g.d(f.replace("_Enc_", "_Dec_"), out, sp64, (lambda v: [v]), 64, 4, cells=cells)
                    for k in (1, 2):
                        def spn(F, rd, sp64=sp64): return {"v": (sp64(F, rd)["v"][0], 32)}
                        g.d(f.replace("_Enc_", "_Dec_") + ("Int%d" if signed else "UInt%d") % (8 * k), [("v", k)], s_narrow(spn, 32, k, signed), (lambda v: [v]), 64, 1, cells=cells, cuts="few")
    # reals: the bytes of the IEEE754 object
    for sz, le in ((32, False), (64, False), (32, True), (64, True)):
        nm = "Real_IEEE754_%d_%s_endian" % (sz, "little" if le else "big")
        if enc_ and sz == 64:
            g.e("Acn_Enc_" + nm, (lambda: fresh_bits("v", 64)), (lambda v, le=le: le_order(msb(v, 64), 64) if le else msb(v, 64)), (lambda v: [val(v)]), 4)
        if enc_ and sz == 32:
            # the value as a double that is exactly a float: constants
            for x in (0.0, 1.0, -2.5, 3.4e38, 1.0e-45, -0.0, float("inf")):
                try: fb = struct.unpack(">I", struct.pack(">f", x))[0]
                except OverflowError: continue
                db = struct.unpack(">Q", struct.pack(">d", struct.unpack(">f", struct.pack(">f", x))[0]))[0]
                g.e("Acn_Enc_" + nm, (lambda db=db: db), (lambda v, fb=fb, le=le: le_order(lit_bits(fb, 32), 32) if le else lit_bits(fb, 32)), (lambda v: [v]), 1, label="%r" % x)
        if dec_:
            def spec(F, rd, sz=sz, le=le):
                r = rd.take(sz)
                if le: r = le_order(r, sz)
                return {"v": (F.N(simp(tuple(reversed(r)))), 64)}
            def specw(F, rd, sz=sz):
                rd.take(sz); return {"v": (None, 64)}
            g.d("Acn_Dec_" + nm, [("v", 8)], spec if sz == 64 else specw, (lambda v: [v]), sz, 4)
            if sz == 32:
                g.d("Acn_Dec_" + nm + "_fp32", [("v", 4)], spec, (lambda v: [v]), sz, 4)
                for x in (1.0, -2.5, 3.4e38, 1.0e-45, -0.0):
                    fb = struct.pack(">f", x) if True else None
                    db = struct.unpack(">Q", struct.pack(">d", struct.unpack(">f", fb)[0]))[0]
                    bs = fb[::-1] if le else fb
                    def cells(p, n, bs=bs): return place(p, n, [b for y in bs for b in lit_bits(y, 8)])
                    def specc(F, rd, db=db): rd.take(32); return {"v": (db, 64)}
                    g.d("Acn_Dec_" + nm, [("v", 8)], specc, (lambda v: [v]), sz, 1, "%r" % x, cells=cells, cuts="full", lead=False)


def milbus(c, fn, a, b):
    """MIL-STD-1553 count: 32 travels as 0 (5 bits), every other value as itself"""
    out = []; k = 0; label = "every value"
    m = Mach(c)
    W = c.W
    v = fresh_bits("v", W)
    m.st.user = {}
    if fn not in c.E.M.funcs: raise AnalysisError("operation %s is not defined in the runtime" % fn)
    c.E.call(m.st, fn, [simp(v)])
    for s in c.E.run(m.st):
        k += 1
        if fault_of(s, fn, label, out): continue
        def ref(F):
            x = F.N(simp(v))
            return b if decide(F, F.eq(x, a, W)) else x
        for f, want in by_spec(s.F, ref):
            r = f.N(s.user["ret"])
            if not same(f, r, want, W): found(out, f, "value", fn, "maps to %s instead of %s" % (show(f, r, W), show(f, want, W)), label, vneq(r, want, W), (r,))
    if not k: out.append(V("ret", fn, "no path completes", label))
    return out, k

def place(pos, nbytes, bits, name="in"):
    """a buffer with the given literals at bit position pos, everything else unknown"""
    fl = [None] * (8 * nbytes)
    for i, b in enumerate(bits):
        if pos + i < len(fl): fl[pos + i] = b
    fl = [fresh("%s%d" % (name, i)) if b is None else b for i, b in enumerate(fl)]
    return [simp(tuple(reversed(fl[8 * i:8 * i + 8]))) for i in range(nbytes)]

# ============================================================ uPER whole numbers (C08, C04)
def ranges(W, deep):
    H = (1 << (W - 1)) - 1
    s = [(0, 0), (0, 1), (1, 2), (-1, 0), (0, 2), (0, 5), (-3, 4), (10, 25), (-128, 127), (0, 255), (0, 256), (-5, 1000), (0, 65535), (1, 65536), (0, (1 << 24) - 1), (7, (1 << 24) + 7), (-H - 1, -1), (-H - 1, -7), (5, H), (0, H), (-H - 1, H), (-H, H)]
    if W == 64: s += [(-(1 << 31), (1 << 31) - 1), (0, (1 << 32) - 1), (0, 1 << 32), (-(1 << 40), 12345), (0, (1 << 48) - 1), (-(1 << 62), (1 << 62) - 1), (3, (1 << 33) + 3)]
    u = [(0, 0), (0, 1), (0, 5), (3, 17), (0, 255), (100, 355), (7, 65543), (0, 2 * H + 1), (1, 2 * H + 1), (0, H + 1), (H + 1, 2 * H + 1)]
    if W == 64: u += [(0, (1 << 32) - 1), (1, 1 << 33), (0, 1 << 31)]
    if deep:
        s += [(0, (1 << k) - 1) for k in range(1, W)] + [(-(1 << k), (1 << k) - 1) for k in range(W - 1)] + [(0, 1 << k) for k in range(W - 1)]
        u += [(0, (1 << k) - 1) for k in range(1, W + 1)] + [(0, 1 << k) for k in range(W)]
    return sorted(set(s)), sorted(set(u))

def offset_value(L, lo, hi, W, signed):
    """value = lo + u with u of L significant bits (u <= hi - lo)"""
    u = U(L, W)
    M = (1 << W) - 1
    return u

def whole(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    WB = W // 8; M = (1 << W) - 1; H = (1 << (W - 1)) - 1
    S, UU = ranges(W, D)
    out = [("v", WB)]
    for signed, rs in ((True, S), (False, UU)):
        en = "BitStream_EncodeConstraintWholeNumber" if signed else "BitStream_EncodeConstraintPosWholeNumber"
        for lo, hi in rs:
            n = (hi - lo).bit_length()
            if enc_:
                for L in unsigned_parts(n, D):
                    def mk(L=L): return U(L, W)
                    def pre(F, u, lo=lo, hi=hi, L=L):
                        if L: F.bound(u, W, False, 1 << (L - 1), min((1 << L) - 1, hi - lo))
                    def args(u, lo=lo, hi=hi): return [None, lo & M, hi & M]
                    g.jobs_before = len(g.jobs)
                    for p in g.pos(1 if n > 32 else 2):
                        g.add(en, enc_offset, en, L, lo, hi, n, W, p)
            if dec_:
                def spec(F, rd, n=n, lo=lo, hi=hi):
                    u = rd.u(n, W)
                    if decide(F, F.lt(hi - lo, u, W, False)): raise SpecFail("value above the upper bound")
                    return {"v": (F.add(u, lo & M, W), W)}
                dn = en.replace("Encode", "Decode")
                g.d(dn, out, spec, (lambda v, lo=lo, hi=hi: [v, lo & M, hi & M]), n, 2, "%d..%d" % (lo, hi), cuts="few")
                for k in (1, 2, 4):
                    if 8 * k >= W: continue
                    tl, th = (-(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1) if signed else (0, (1 << (8 * k)) - 1)
                    if tl <= lo and hi <= th and (D or (lo, hi) in ((0, 5), (-3, 4), (3, 17), (100, 355), (-5, 1000), (0, 0), (-128, 127), (0, 255), (7, 65543)) or (lo, hi) == (tl, th)):
                        def specn(F, rd, spec=spec, k=k):
                            r = spec(F, rd); return {"v": (F.trunc(r["v"][0], W, 8 * k), 8 * k)}
                        mk_ = (1 << (8 * k)) - 1
                        g.d(dn + ("Int%d" if signed else "UInt%d") % (8 * k), [("v", k)], specn, (lambda v, lo=lo, hi=hi, mk_=mk_: [v, lo & mk_, hi & mk_]), n, 1, "%d..%d" % (lo, hi), cuts="few")
    # plain non-negative integers
    for n in (range(W + 1) if D else [x for x in (0, 1, 3, 7, 8, 9, 16, 23, 31, 32, 33, 40, 48, 63, 64) if x <= W]):
        if enc_:
            g.e("BitStream_EncodeNonNegativeInteger", (lambda n=n: U(n, W)), (lambda v, n=n: msb(v, n)), (lambda v: [val(v)]), 2, label="%d bits" % n)
            g.e("BitStream_EncodeNonNegativeIntegerNeg", (lambda n=n: U(n, W)), (lambda v, n=n: msb(v, n)), (lambda v: [val(v), 0]), 1, label="%d bits" % n)
            g.e("BitStream_EncodeNonNegativeIntegerNeg", (lambda n=n: U(n, W)), (lambda v, n=n: [l ^ 1 for l in msb(v, n)]), (lambda v: [val(v), 1]), 1, label="%d bits negated" % n)
        if dec_: g.d("BitStream_DecodeNonNegativeInteger", out, s_uint(n, W, WB), (lambda v, n=n: [v, n]), n, 2, "%d bits" % n, cuts="few")
    # semi-constrained: length octet + minimal unsigned octets of v - min
    for signed in (True, False):
        nm = "SemiConstraintWholeNumber" if signed else "SemiConstraintPosWholeNumber"
        mins = [0, 1, 1000] + ([-1, -(1 << 20), H, -H - 1] if signed else [H + 1, 2 * H + 1])
        top = H if signed else 2 * H + 1
        for mn in mins:
            span = top - mn
            if enc_:
                for L in unsigned_parts(span.bit_length(), D):
                    for p in g.pos(1):
                        g.add("BitStream_Encode" + nm, enc_semi, "BitStream_Encode" + nm, L, mn, span, W, p)
            if dec_:
                def spec(F, rd, mn=mn, span=span):
                    u = embedded(W, False)(F, rd)["v"][0]
                    if decide(F, F.lt(span, u, W, False)): raise SpecFail("value not representable")
                    return {"v": (F.add(u, mn & M, W), W)}
                g.d("BitStream_Decode" + nm, out, spec, (lambda v, mn=mn: [v, mn & M]), 8 + W, 1, "min=%d" % mn, cuts=None if mn == 0 else "few")
    # unconstrained: length octet + minimal two's complement
    if enc_:
        for L in range(W):
            for neg in (0, 1):
                g.e("BitStream_EncodeUnConstraintWholeNumber", (lambda L=L, neg=neg: NEGA(U(L, W)) if neg else U(L, W)),
                    (lambda v, L=L: lit_bits(slen(L), 8) + msb(v + (v[-1],) * 8, 8 * slen(L))), (lambda v: [val(v)]), 1 if not D else 8, label="%s%d bits" % ("negative " if neg else "", L))
    if dec_: g.d("BitStream_DecodeUnConstraintWholeNumber", out, embedded(W, True), (lambda v: [v]), 8 + W, 4)

def enc_offset(c, fn, L, lo, hi, n, W, pos):
    u = U(L, W); M = (1 << W) - 1
    def setup(m):
        if L: m.st.F.bound(u, W, False, 1 << (L - 1), min((1 << L) - 1, hi - lo))
    def args(m, bs, _):
        F = m.st.F
        return [bs, F.add(F.N(simp(u)), lo & M, W), lo & M, hi & M]
    return enc(c, fn, args, Exp(n, lambda F: msb(tobvF(F, u, W), n)), pos, "%d..%d, %d significant bits at bit %d" % (lo, hi, L, pos), setup=setup)

def tobvF(F, u, w): return tuple(F.L(l) for l in u)

def enc_semi(c, fn, L, mn, span, W, pos):
    u = U(L, W); M = (1 << W) - 1; k = ulen(L)
    def setup(m):
        if L: m.st.F.bound(u, W, False, 1 << (L - 1), min((1 << L) - 1, span))
    def args(m, bs, _):
        F = m.st.F
        return [bs, F.add(F.N(simp(u)), mn & M, W), mn & M]
    return enc(c, fn, args, Exp(8 + 8 * k, lambda F: lit_bits(k, 8) + msb(tobvF(F, u, W) + (0,) * 8, 8 * k)), pos, "min=%d, offset of %d bits at bit %d" % (mn, L, pos), setup=setup)

# ============================================================ variable size ACN integers (C09)
def digits_of(F, v, n, w):
    """n decimal digits of v, most significant first"""
    r = []
    for _ in range(n):
        v, d = F.divmod(F.N(v), 10, w)
        r.append(d)
    return list(reversed(r))

def nib(F, d, w): return list(reversed(F.bits(F.N(d), w)[:4]))
def chr_(F, d, w): return list(reversed(F.bits(F.add(F.N(d), 48, w), w)[:8]))

def dec_value(F, ds, W, limit):
    """number denoted by the digits (list of width-W values); rejects above limit"""
    v = 0; mx = 0
    for d in ds:
        v = F.add(F.scale(v, 10, W), d, W)
    return v

def const_digits(x): return [int(ch) for ch in str(x)]

def variable(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    WB = W // 8; M = (1 << W) - 1; H = (1 << (W - 1)) - 1
    MAXD = len(str(M))
    out = [("v", WB)]
    nuls = [(0,), (13, 10), (0, 1, 0)] + ([(9,) * 10] if D else [])
    # ---- length embedded
    if enc_:
        for L in range(W + 1):
            g.e("Acn_Enc_Int_PositiveInteger_VarSize_LengthEmbedded", (lambda L=L: U(L, W)), (lambda v, L=L: lit_bits(ulen(L), 8) + msb(v + (0,) * 8, 8 * ulen(L))), (lambda v: [val(v)]), 2 if L < 33 else 1, label="%d bits" % L)
        for L in range(W):
            for neg in (0, 1):
                g.e("Acn_Enc_Int_TwosComplement_VarSize_LengthEmbedded", (lambda L=L, neg=neg: NEGA(U(L, W)) if neg else U(L, W)),
                    (lambda v, L=L: lit_bits(slen(L), 8) + msb(v + (v[-1],) * 8, 8 * slen(L))), (lambda v: [val(v)]), 1, label="%s%d bits" % ("negative " if neg else "", L))
    if dec_:
        for nm, sg in (("PositiveInteger", False), ("TwosComplement", True)):
            f = "Acn_Dec_Int_%s_VarSize_LengthEmbedded" % nm
            sp = embedded(W, sg)
            g.d(f, out, sp, (lambda v: [v]), 8 + W, 3)
            for k in (1, 2, 4):
                if 8 * k < W: g.d(f + ("Int%d" if sg else "UInt%d") % (8 * k), [("v", k)], s_narrow(sp, W, k, sg), (lambda v: [v]), 8 + W, 1, cuts="few")
    # ---- encoders of decimal forms: partition by number of digits
    if enc_:
        for nd in range(1, MAXD + 1):
            lo = 10 ** (nd - 1) if nd > 1 else 0; hi = min(10 ** nd - 1, M)
            w4 = nd if lo else max(nd, 1)
            g.add("Acn_Enc_Int_BCD_ConstSize", enc_dec, "Acn_Enc_Int_BCD_ConstSize", lo, hi, nd, W, nd, "bcd", None, nd % 8)
            if nd < MAXD: g.add("Acn_Enc_Int_BCD_ConstSize", enc_dec, "Acn_Enc_Int_BCD_ConstSize", lo, hi, nd, W, nd + 1 if nd < 19 else nd, "bcd", None, (nd * 3 + 1) % 8)
            g.add("Acn_Enc_UInt_ASCII_ConstSize", enc_dec, "Acn_Enc_UInt_ASCII_ConstSize", lo, hi, nd, W, nd, "asc", None, (nd * 5) % 8)
            g.add("Acn_Enc_UInt_ASCII_ConstSize", enc_dec, "Acn_Enc_UInt_ASCII_ConstSize", lo, hi, nd, W, nd + 2, "asc", None, (nd * 3 + 2) % 8)
            if 0 < lo <= H or lo == 0:
                for neg in (0, 1):
                    h2 = min(hi, H + neg)
                    if lo > h2: continue
                    g.add("Acn_Enc_SInt_ASCII_ConstSize", enc_dec, "Acn_Enc_SInt_ASCII_ConstSize", max(lo, neg), h2, nd, W, nd + 1, "sasc", None, (nd * 5 + neg) % 8, neg)
                    g.add("Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded", enc_dec, "Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded", max(lo, neg), h2, nd, W, None, "sasc", "len", (nd * 3 + neg) % 8, neg)
                    for z in nuls: g.add("Acn_Enc_SInt_ASCII_VarSize_NullTerminated", enc_dec, "Acn_Enc_SInt_ASCII_VarSize_NullTerminated", max(lo, neg), h2, nd, W, None, "sasc", z, (nd + 4 + neg + len(z)) % 8, neg)
            # the length-embedded and terminated BCD forms encode 0 without digits
            l2 = max(lo, 1)
            g.add("Acn_Enc_Int_BCD_VarSize_LengthEmbedded", enc_dec, "Acn_Enc_Int_BCD_VarSize_LengthEmbedded", l2, hi, nd, W, None, "bcd", "len", (nd * 3) % 8)
            g.add("Acn_Enc_Int_BCD_VarSize_NullTerminated", enc_dec, "Acn_Enc_Int_BCD_VarSize_NullTerminated", l2, hi, nd, W, None, "bcd", "F", (nd * 5) % 8)
            g.add("Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded", enc_dec, "Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded", lo, hi, nd, W, None, "asc", "len", (nd * 7) % 8)
            for z in nuls: g.add("Acn_Enc_UInt_ASCII_VarSize_NullTerminated", enc_dec, "Acn_Enc_UInt_ASCII_VarSize_NullTerminated", lo, hi, nd, W, None, "asc", z, (nd * 3 + len(z)) % 8)
        g.e("Acn_Enc_Int_BCD_VarSize_LengthEmbedded", (lambda: 0), (lambda v: lit_bits(0, 8)), (lambda v: [v]), 8, label="zero")
        g.e("Acn_Enc_Int_BCD_VarSize_NullTerminated", (lambda: 0), (lambda v: lit_bits(15, 4)), (lambda v: [v]), 8, label="zero")
    # ---- decoders of decimal forms
    if dec_:
        def digit(F, rd, bits, base=0):
            d = rd.u(bits, W)
            if base: d = F.add(d, -base & M, W) if True else d
            if decide(F, F.lt(9, d, W, False)): raise SpecFail("not a digit")
            return d
        def number(F, ds, neg=None):
            v = 0
            for i, d in enumerate(ds):
                if i >= MAXD - 1:          # may exceed the native range
                    if decide(F, F.lt(M // 10, v, W, False)): raise SpecFail("value not representable")
                    t = F.scale(v, 10, W)
                    if decide(F, F.lt(M - 9, t, W, False)):
                        if decide(F, F.lt(F.add(M, t, W, -1), d, W, False)): raise SpecFail("value not representable")
                v = F.add(F.scale(v, 10, W), d, W)
            return v
        def sign(F, rd):
            b = rd.u(8, W)
            if decide(F, F.eq(b, 43, W)): return 0
            if decide(F, F.eq(b, 45, W)): return 1
            raise SpecFail("no sign")
        def applysign(F, v, neg):
            if neg:
                if decide(F, F.lt(H + 1, v, W, False)): raise SpecFail("value not representable")
                return F.scale(v, -1, W)
            if decide(F, F.lt(H, v, W, False)): raise SpecFail("value not representable")
            return v
        # a few symbolic digits at a time: the others are fixed, so that the partitions stay few
        def cells_of(prefix, k, unit, symbolic, pos, nbytes):
            pass
        SMALL = (0, 1, 2, 3, 5) if not D else (0, 1, 2, 3, 4, 5, 7, 9)
        for n in SMALL:
            def sb(F, rd, n=n): return {"v": (number(F, [digit(F, rd, 4) for _ in range(n)]), W)}
            g.d("Acn_Dec_Int_BCD_ConstSize", out, sb, (lambda v, n=n: [v, n]), 4 * n, 4, "%d digits" % n)
            def sa(F, rd, n=n): return {"v": (number(F, [digit(F, rd, 8, 48) for _ in range(n)]), W)}
            g.d("Acn_Dec_UInt_ASCII_ConstSize", out, sa, (lambda v, n=n: [v, n]), 8 * n, 2, "%d characters" % n)
            if n:
                def ss(F, rd, n=n):
                    s = sign(F, rd)
                    v = number(F, [digit(F, rd, 8, 48) for _ in range(n - 1)])
                    return {"v": (applysign(F, v, s), W)}
                g.d("Acn_Dec_SInt_ASCII_ConstSize", out, ss, (lambda v, n=n: [v, n]), 8 * n, 2, "%d characters" % n)
            for k in (1, 2, 4):
                if n in (3, 5) and 8 * k < W:
                    g.d("Acn_Dec_Int_BCD_ConstSizeUInt%d" % (8 * k), [("v", k)], s_narrow(sb, W, k, False), (lambda v, n=n: [v, n]), 4 * n, 1, "%d digits" % n, cuts="few")
                    g.d("Acn_Dec_UInt_ASCII_ConstSizeUInt%d" % (8 * k), [("v", k)], s_narrow(sa, W, k, False), (lambda v, n=n: [v, n]), 8 * n, 1, "%d digits" % n, cuts="few")
                    g.d("Acn_Dec_SInt_ASCII_ConstSizeInt%d" % (8 * k), [("v", k)], s_narrow(ss, W, k, True), (lambda v, n=n: [v, n]), 8 * n, 1, "%d characters" % n, cuts="few")
        # around the native limits: concrete leading digits, symbolic last digits
        for lim, signed in ((M, False), (H, True), (H + 1, True)):
            for x in (lim, lim - 7, lim + 1, lim * 10 + 3, 10 ** (MAXD - 1) - 1 if not signed else lim // 10):
                ds = const_digits(x)
                for sym in (0, 1):
                    for fam in ("bcd", "asc") if not signed else ("sasc+", "sasc-"):
                        unit = 4 if fam == "bcd" else 8
                        def cells(p, n, ds=ds, sym=sym, fam=fam, unit=unit):
                            b = []
                            if fam[0] == "s": b += lit_bits(43 if fam[-1] == "+" else 45, 8)
                            for d in ds[:len(ds) - sym]: b += lit_bits(d if fam == "bcd" else d + 48, unit)
                            if fam != "bcd" and sym: b += lit_bits(3, 4)
                            return place(p, n, b)
                        n = len(ds) + (fam[0] == "s")
                        if fam == "bcd": g.d("Acn_Dec_Int_BCD_ConstSize", out, (lambda F, rd, n=n: {"v": (number(F, [digit(F, rd, 4) for _ in range(n)]), W)}), (lambda v, n=n: [v, n]), 4 * n, 1, "%s.." % x, cells=cells, cuts="full", lead=False)
                        elif fam == "asc": g.d("Acn_Dec_UInt_ASCII_ConstSize", out, (lambda F, rd, n=n: {"v": (number(F, [digit(F, rd, 8, 48) for _ in range(n)]), W)}), (lambda v, n=n: [v, n]), 8 * n, 1, "%s.." % x, cells=cells, cuts="full", lead=False)
                        else:
                            def ss(F, rd, n=n):
                                s = sign(F, rd)
                                return {"v": (applysign(F, number(F, [digit(F, rd, 8, 48) for _ in range(n - 1)]), s), W)}
                            g.d("Acn_Dec_SInt_ASCII_ConstSize", out, ss, (lambda v, n=n: [v, n]), 8 * n, 1, "%s%s.." % (fam[-1], x), cells=cells, cuts="full", lead=False)
        # length embedded / terminated: length octet and terminator decide the extent
        def s_bcdlen(F, rd):
            n = conc(F, rd.u(8, W), W)
            if n > MAXD: raise SpecFail("too many digits")
            return {"v": (number(F, [digit(F, rd, 4) for _ in range(n)]), W)}
        def s_bcdnul(F, rd):
            ds = []
            while True:
                d = rd.u(4, W)
                if decide(F, F.lt(9, d, W, False)): break
                ds.append(d)
                number(F, ds)
            return {"v": (number(F, ds), W)}
        def s_asclen(F, rd):
            n = conc(F, rd.u(8, W), W)
            return {"v": (number(F, [digit(F, rd, 8, 48) for _ in range(n)]), W)}
        def s_sasclen(F, rd):
            n = conc(F, rd.u(8, W), W)
            if n == 0: raise SpecFail("no sign")
            s = sign(F, rd)
            return {"v": (applysign(F, number(F, [digit(F, rd, 8, 48) for _ in range(n - 1)]), s), W)}
        def term(z, signed):
            def spec(F, rd):
                s = sign(F, rd) if signed else 0
                ds = []
                while True:
                    if rd.left() < 8 * len(z): raise SpecFail("truncated")
                    if all(decide(F, F.eq(simp(tuple(reversed(rd.b[rd.p + 8 * i:rd.p + 8 * i + 8]))), z[i], 8)) for i in range(len(z))):
                        rd.take(8 * len(z)); break
                    ds.append(digit(F, rd, 8, 48))
                    number(F, ds)
                v = number(F, ds)
                return {"v": (applysign(F, v, s) if signed else v, W)}
            return spec
        def lenplace(n, w=8):
            return lambda p, nb: place(p, nb, lit_bits(n, w))
        for n in (0, 1, 2, 3) + ((4, 5, 6) if D else ()):
            g.d("Acn_Dec_Int_BCD_VarSize_LengthEmbedded", out, s_bcdlen, (lambda v: [v]), 8 + 4 * n, 4, "%d digits" % n, cells=lenplace(n), lead=False)
            g.d("Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded", out, s_asclen, (lambda v: [v]), 8 + 8 * n, 2, "%d digits" % n, cells=lenplace(n), lead=False)
            g.d("Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded", out, s_sasclen, (lambda v: [v]), 8 + 8 * n, 2, "%d characters" % n, cells=lenplace(n), lead=False)
        for n in (20, 21, 40, 127, 128, 255):
            for f, sp in (("Acn_Dec_Int_BCD_VarSize_LengthEmbedded", s_bcdlen), ("Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded", s_asclen), ("Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded", s_sasclen)):
                g.d(f, out, sp, (lambda v: [v]), 24, 1, "length %d" % n, cells=lenplace(n), lead=False, cuts="full")
        for nb in (0, 1, 2, 3):
            for p in g.pos(4):
                g.add("Acn_Dec_Int_BCD_VarSize_NullTerminated", dec1, "Acn_Dec_Int_BCD_VarSize_NullTerminated", out, s_bcdnul, (lambda v: [v]), p if nb else 0, nb, "", None, True, None)
        for z in nuls[:3]:
            for nb in range(0, len(z) + 3):
                for p in g.pos(2):
                    g.add("Acn_Dec_UInt_ASCII_VarSize_NullTerminated", dec1, "Acn_Dec_UInt_ASCII_VarSize_NullTerminated", out, term(z, False), (lambda v, z=z: [v, Data(list(z), "terminator"), len(z)]), p if nb else 0, nb, "terminator %r" % (z,), None, True, None)
                    if len(z) < 3: g.add("Acn_Dec_SInt_ASCII_VarSize_NullTerminated", dec1, "Acn_Dec_SInt_ASCII_VarSize_NullTerminated", out, term(z, True), (lambda v, z=z: [v, Data(list(z), "terminator"), len(z)]), p if nb else 0, nb, "terminator %r" % (z,), None, True, None)
        # narrow results
        for k in (1, 2, 4):
            if 8 * k >= W: continue
            x = (1 << (8 * k)); 
            for t in (x - 1, x, x + 1, x // 2 - 1, x // 2, x // 2 + 1, 7):
                ds = const_digits(t)
                asc = [d + 48 for d in ds]
                def C(bl): return lambda p, nb: place(p, nb, [b for y, u in bl for b in lit_bits(y, u)])
                nb_ = len(ds)
                g.d("Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt%d" % (8 * k), [("v", k)], s_narrow(s_bcdlen, W, k, False), (lambda v: [v]), 8 + 4 * nb_, 1, str(t), cells=C([(nb_, 8)] + [(d, 4) for d in ds]), lead=False, cuts="few")
                g.d("Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt%d" % (8 * k), [("v", k)], s_narrow(s_bcdnul, W, k, False), (lambda v: [v]), 4 + 4 * nb_, 1, str(t), cells=C([(d, 4) for d in ds] + [(15, 4)]), lead=False, cuts="few")
                g.d("Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt%d" % (8 * k), [("v", k)], s_narrow(s_asclen, W, k, False), (lambda v: [v]), 8 + 8 * nb_, 1, str(t), cells=C([(nb_, 8)] + [(d, 8) for d in asc]), lead=False, cuts="few")
                g.d("Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt%d" % (8 * k), [("v", k)], s_narrow(term((0,), False), W, k, False), (lambda v: [v, Data([0]), 1]), 8 + 8 * nb_, 1, str(t), cells=C([(d, 8) for d in asc] + [(0, 8)]), lead=False, cuts="few")
                for s_ in (43, 45):
                    g.d("Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt%d" % (8 * k), [("v", k)], s_narrow(s_sasclen, W, k, True), (lambda v: [v]), 16 + 8 * nb_, 1, "%c%s" % (s_, t), cells=C([(nb_ + 1, 8), (s_, 8)] + [(d, 8) for d in asc]), lead=False, cuts="few")
                    g.d("Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt%d" % (8 * k), [("v", k)], s_narrow(term((0,), True), W, k, True), (lambda v: [v, Data([0]), 1]), 16 + 8 * nb_, 1, "%c%s" % (s_, t), cells=C([(s_, 8)] + [(d, 8) for d in asc] + [(0, 8)]), lead=False, cuts="few")

def enc_dec(c, fn, lo, hi, nd, W, width, fam, frame, pos, neg=0):
    """encoder of a decimal form; value in [lo, hi] (negated if neg), nd digits"""
    n = hi.bit_length() if hi else 1
    u = fresh_bits("v", n) + (0,) * (W - n)
    def setup(m): m.st.F.bound(u, W, False, lo, hi)
    unit = 4 if fam == "bcd" else 8
    nd_out = nd
    tot = 0
    if width is not None: tot = width * unit
    else: tot = nd * unit + (8 if fam == "sasc" else 0)
    if frame == "len": tot += 8
    elif frame == "F": tot += 4
    elif frame: tot += 8 * len(frame)
    def ex(F):
        ds = digits_of(F, simp(tuple(F.L(l) for l in u)), nd, W)
        b = []
        if frame == "len": b += lit_bits(nd + (1 if fam == "sasc" else 0), 8)
        if fam == "sasc": b += lit_bits(45 if neg else 43, 8)
        if width is not None:
            w = width - (1 if fam == "sasc" else 0)
            for _ in range(w - nd): b += lit_bits(0, 4) if fam == "bcd" else lit_bits(48, 8)
        for d in ds: b += nib(F, d, W) if fam == "bcd" else chr_(F, d, W)
        if frame == "F": b += [1, 1, 1, 1]
        elif frame and frame != "len":
            for z in frame: b += lit_bits(z, 8)
        return b
    def args(m, bs, _):
        F = m.st.F
        v = F.N(simp(u))
        if neg: v = F.scale(v, -1, W)
        a = [bs, v]
        if width is not None: a.append(width)
        if frame and frame not in ("len", "F"): a += [realise(m, Data(list(frame), "terminator")), len(frame)]
        return a
    return enc(c, fn, args, Exp(tot, ex), pos, "%s%d..%d at bit %d" % ("-" if neg else "", lo, hi, pos), setup=setup)
