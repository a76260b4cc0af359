"""Bit-provenance abstract domain.

A machine integer is one of
  int            a known constant,
  tuple          one literal per bit, least significant first; a literal is 0, 1, 2*s (symbol s) or 2*s+1 (not s),
  LV             a linear form  k + sum(c_i * s_i)  modulo 2^w over bit symbols,
and a symbol either stands for one unknown bit of the analysed inputs or is *defined* (an and/or/xor of literals, a
comparison, a bit of a linear form, an opaque operation).  Definitions are hash-consed, so two computations of the same
function of the inputs get the same abstract value whatever statements produced them.

A state carries facts learnt on the path: `env` (literal substitutions), `bounds` (ranges of linear forms), `neq`.
There is no solver: facts are propagated locally, and what stays unknown stays a partition.
"""

from math import gcd

class Unsupported(Exception): pass

# ------------------------------------------------------------------ symbols
DEF = [None]          # DEF[s]: definition or None
NAME = [None]
_HC = {}

def fresh(name):
    DEF.append(None); NAME.append(name)
    return 2 * (len(DEF) - 1)

def fresh_bits(name, n):
    return tuple(fresh("%s[%d]" % (name, i)) for i in range(n))

def node(d):
    s = _HC.get(d)
    if s is None:
        DEF.append(d); NAME.append(None)
        s = _HC[d] = len(DEF) - 1
    return 2 * s

class LV:
    __slots__ = ("t", "k", "w", "_h")
    def __init__(self, t, k, w):
        self.t, self.k, self.w = t, k, w      # t: tuple of (sym, signed coefficient) sorted by sym
        self._h = None
    def __eq__(self, o): return isinstance(o, LV) and self.t == o.t and self.k == o.k and self.w == o.w
    def __ne__(self, o): return not self == o
    def __hash__(self):
        if self._h is None: self._h = hash((self.t, self.k, self.w))
        return self._h
    def __repr__(self): return "LV(%s + %d :%d)" % (" + ".join("%d*s%d" % (c, s) for s, c in self.t[:6]) + ("..." if len(self.t) > 6 else ""), self.k, self.w)

def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x

def terms(v, w, signed_top=False):
    """value -> (dict sym->coef, k) with value = k + sum (mod 2^w)"""
    if isinstance(v, int): return {}, v
    if isinstance(v, tuple):
        d, k = {}, 0
        for i, l in enumerate(v):
            if l < 2:
                if l: k += -(1 << i) if signed_top and i == w - 1 else 1 << i
            else:
                c = 1 << i
                if signed_top and i == w - 1: c = -c
                s = l >> 1
                if l & 1:
                    k += c; d[s] = d.get(s, 0) - c
                else: d[s] = d.get(s, 0) + c
        return d, k
    return dict(v.t), v.k

def mk(d, k, w):
    """canonical value of  k + sum d  (mod 2^w)"""
    M = (1 << w) - 1; H = 1 << (w - 1)
    k &= M
    t = []
    ok = True
    used = 0
    for s, c in d.items():
        c &= M
        if not c: continue
        if c > H: c -= M + 1
        t.append((s, c))
    if not t: return k
    # try to see it as literals
    kk = k; bits = None
    neg = None
    for s, c in t:
        a = -c if c < 0 else c
        if a & (a - 1) or a & used: ok = False; break
        used |= a
        if c < 0: kk -= a; neg = a if neg is None else 0
    if ok:
        kk2 = kk & M
        if not (kk2 & used):
            bits = [(kk2 >> i) & 1 for i in range(w)]
            for s, c in t:
                a = -c if c < 0 else c
                bits[a.bit_length() - 1] = 2 * s + (1 if c < 0 else 0)
            return tuple(bits)
        # sign-extended form: one negative coefficient -2^i above all the others
        if neg and neg * 2 > used and not (k & used) and k < neg:
            bits = [(k >> i) & 1 for i in range(w)]
            for s, c in t:
                a = -c if c < 0 else c
                if c < 0:
                    for j in range(a.bit_length() - 1, w): bits[j] = 2 * s
                else: bits[a.bit_length() - 1] = 2 * s
            return tuple(bits)
    t.sort()
    return LV(tuple(t), k, w)

def tobv(n, w):
    return tuple((n >> i) & 1 for i in range(w))

def simp(b):
    """bit tuple -> int when constant"""
    r = 0
    for i, l in enumerate(b):
        if l > 1: return b
        if l: r |= 1 << i
    return r

def fit(a, w):
    """a value in a context of width w: a linear form may be kept at a larger width when its value is known to fit"""
    if a.__class__ is tuple:
        if len(a) > w: return a[:w]
        if len(a) < w: return a + (0,) * (w - len(a))
        return a
    if a.__class__ is int and a >> w: return a & ((1 << w) - 1)
    return a

# ------------------------------------------------------------------ literals
def AND(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a == b: return a
    if a ^ b == 1: return 0
    return node(("and", a, b) if a < b else ("and", b, a))

def OR(a, b):
    return AND(a ^ 1, b ^ 1) ^ 1

def XOR(a, b):
    if a < 2: return b ^ a
    if b < 2: return a ^ b
    n = (a ^ b) & 1
    a &= ~1; b &= ~1
    if a == b: return n
    return node(("xor", a, b) if a < b else ("xor", b, a)) ^ n

class Infeasible(Exception): pass

_REM = {}      # written-out remainders  a - c*(a/c)

class Facts:
    """path facts; copied when a path splits"""
    __slots__ = ("env", "bounds", "neq", "cls", "ver", "_rc", "_bver", "_busy")
    def __init__(self):
        self.env, self.bounds, self.neq, self.cls, self.ver = {}, {}, [], [], 0
        self._busy = False
        self._rc, self._bver = {}, 0
    def copy(self):
        f = Facts.__new__(Facts)
        f.env, f.bounds, f.neq, f.cls, f.ver = dict(self.env), dict(self.bounds), list(self.neq), list(self.cls), self.ver
        f._busy = False
        f._rc, f._bver = {}, self._bver
        return f

    # ---- substitution
    def L(self, l):
        if l < 2: return l
        env = self.env
        e = env.get(l >> 1)
        while e is not None:
            l = e ^ (l & 1)
            if l < 2: return l
            e = env.get(l >> 1)
        s = l >> 1
        if DEF[s] is None or not env: return l
        r = self._rc.get(s)
        if r is None:
            self._rc[s] = 2 * s      # cycle guard
            r = self._redef(s)
            self._rc[s] = r
        if r == 2 * s: return l
        return self.L(r ^ (l & 1)) if r > 1 else r ^ (l & 1)

    def _redef(self, s):
        d = DEF[s]
        op = d[0]
        if op == "and":
            a, b = self.L(d[1]), self.L(d[2])
            return 2 * s if (a, b) == (d[1], d[2]) else AND(a, b)
        if op == "xor":
            a, b = self.L(d[1]), self.L(d[2])
            return 2 * s if (a, b) == (d[1], d[2]) else XOR(a, b)
        if op in ("eq", "ult", "slt"):
            a, b = self.N(d[1]), self.N(d[2])
            if a == d[1] and b == d[2]: return 2 * s
            return self.cmp(op, a, b, d[3])
        if op == "le":
            e, k, ch = {}, 0, False
            for x, c in d[1]:
                l = self.L(2 * x)
                if l == 2 * x: e[x] = e.get(x, 0) + c; continue
                ch = True
                if l < 2: k += c * l
                else:
                    if l & 1: k += c; c = -c
                    e[l >> 1] = e.get(l >> 1, 0) + c
            if not ch and not self.bounds: return 2 * s
            return self.le(e, d[2] - k)
        if op == "bit":
            v = d[1]; n = self.N(v)
            if n == v: return 2 * s
            return self.bit(n, d[2])
        return 2 * s

    def N(self, v):
        """value under the facts of this path"""
        if isinstance(v, int): return v
        if isinstance(v, tuple):
            if not self.env: return v
            L = self.L
            o = tuple([l if l < 2 else L(l) for l in v])
            return simp(o)
        if isinstance(v, LV):
            if not self.env and not self.bounds: return v
            if self.env:
                env = self.env; L = self.L
                d, k, ch = {}, v.k, False
                for s, c in v.t:
                    l = L(2 * s)
                    if l == 2 * s: d[s] = d.get(s, 0) + c; continue
                    ch = True
                    if l < 2: k += c * l
                    else:
                        if l & 1: k += c; c = -c
                        d[l >> 1] = d.get(l >> 1, 0) + c
                if ch:
                    v = mk(d, k, v.w)
                    if not isinstance(v, LV): return v
            if self.bounds:
                lo, hi = self.rng(v, v.w, False)
                if lo == hi: return lo
            return v
        return v

    # ---- ranges
    def _key(self, d):
        t = sorted(d.items())
        if t and t[0][1] < 0: return tuple((s, -c) for s, c in t), -1
        return tuple(t), 1

    def _fixbounds(self):
        if self._bver == self.ver: return
        self._bver = self.ver
        old = self.bounds; self.bounds = {}
        for key, (lo, hi) in old.items():
            d, k = {}, 0
            for s, c in key:
                l = self.L(2 * s)
                if l < 2: k += c * l
                else:
                    if l & 1: k += c; c = -c
                    d[l >> 1] = d.get(l >> 1, 0) + c
            d = {s: c for s, c in d.items() if c}
            if not d:
                if not (lo <= k <= hi): raise Infeasible()
                continue
            nk, sg = self._key(d)
            a, b = (lo - k, hi - k) if sg > 0 else (k - hi, k - lo)
            l2 = h2 = 0
            for s, c in nk:
                if c > 0: h2 += c
                else: l2 += c
            if a > h2 or b < l2: raise Infeasible()
            self._setb(nk, a, b)

    def _setb(self, key, lo, hi):
        o = self.bounds.get(key)
        if o: lo, hi = max(lo, o[0]), min(hi, o[1])
        if lo > hi: raise Infeasible()
        if o != (lo, hi):
            self.bounds[key] = (lo, hi)
            self._rc = {}

    def trng(self, d):
        """integer range of sum of terms"""
        lo = hi = 0
        for c in d.values():
            if c > 0: hi += c
            else: lo += c
        if self.bounds and d:
            self._fixbounds()
            key, sg = self._key(d)
            b = self.bounds.get(key)
            if b:
                if sg < 0: b = (-b[1], -b[0])
                lo, hi = max(lo, b[0]), min(hi, b[1])
            elif len(self.bounds) and len(d) > 1:
                # a bounded part plus independent bits
                for bk, (bl, bh) in self.bounds.items():
                    if len(bk) >= len(d) or len(bk) < 2: continue
                    s0, c0 = bk[0]
                    c1 = d.get(s0)
                    if c1 is None or c1 % c0: continue
                    f = c1 // c0
                    if all(d.get(s) == f * c for s, c in bk):
                        inb = dict(bk)
                        l2 = h2 = 0
                        for s, c in d.items():
                            if s in inb: continue
                            if c > 0: h2 += c
                            else: l2 += c
                        x, y = (f * bl, f * bh) if f > 0 else (f * bh, f * bl)
                        lo, hi = max(lo, l2 + x), min(hi, h2 + y)
        return lo, hi

    def rng(self, v, w, signed):
        if isinstance(v, int):
            return (sgn(v, w),) * 2 if signed else (v, v)
        if isinstance(v, tuple):
            if len(v) != w: v = fit(v, w)
            n = w
            if signed:
                while n > 1 and v[n - 2] == v[n - 1]: n -= 1     # sign extension
                lo = hi = 0
                for i in range(n - 1):
                    l = v[i]
                    if l == 1: lo += 1 << i; hi += 1 << i
                    elif l: hi += 1 << i
                l = v[n - 1]
                if l == 1: lo -= 1 << (n - 1); hi -= 1 << (n - 1)
                elif l: lo -= 1 << (n - 1)
                if self.bounds:
                    d, k = terms(v[:n], n, True)
                    a, b = self.trng(d)
                    lo, hi = max(lo, a + k), min(hi, b + k)
                return lo, hi
            lo = hi = 0
            for i in range(n):
                l = v[i]
                if l == 1: lo += 1 << i; hi += 1 << i
                elif l: hi += 1 << i
            if self.bounds:
                d, k = terms(v, w)
                a, b = self.trng(d)
                lo, hi = max(lo, a + k), min(hi, b + k)
            return lo, hi
        if isinstance(v, LV):
            off = self._shift(v, w, signed)
            if off is None: return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            return off[0], off[1]
        raise Unsupported("range of %r" % (v,))

    def _shift(self, v, w, signed):
        """(lo, hi, kk): the integer meaning of the LV is sum + kk without wrap, or None"""
        if v.w > w:
            sh = self._shift(v, v.w, False)
            if sh is None or sh[1] >> w: return None
            if not signed or not (sh[1] >> (w - 1)): return sh
            if sh[0] >> (w - 1): return sh[0] - (1 << w), sh[1] - (1 << w), sh[2] - (1 << w), sh[3]
            return None
        H = 1 << (w - 1)
        k = v.k
        base = -H if signed else 0
        for flip in (False, True):
            d = dict(v.t)
            if flip:
                n = 0
                for s, c in v.t:
                    if c == H: d[s] = -H; n += 1
                    elif c == -H: d[s] = H; n += 1
                if not n: return None
            a, b = self.trng(d)
            m = (a + k - base) >> w          # floor
            a2, b2 = a + k - (m << w), b + k - (m << w)
            if b2 < base + (1 << w): return a2, b2, k - (m << w), d
        return None

    # ---- bits
    def bit(self, v, i):
        if isinstance(v, int): return (v >> i) & 1
        if isinstance(v, tuple): return v[i]
        M = (1 << (i + 1)) - 1
        d = {}
        for s, c in v.t:
            c &= M
            if c: d[s] = c
        r = mk(d, v.k & M, i + 1)
        if isinstance(r, int): return (r >> i) & 1
        if isinstance(r, tuple): return r[i]
        g = r.k
        for _, c in r.t: g |= c
        j = (g & -g).bit_length() - 1
        if j:                                  # a shifted form: the bit of the unshifted one
            if j > i: return 0
            i -= j
            r = mk({s: c >> j for s, c in r.t}, r.k >> j, i + 1)
            if isinstance(r, int): return (r >> i) & 1
            if isinstance(r, tuple): return r[i]
        return node(("bit", r, i))

    def bits(self, v, w):
        if isinstance(v, tuple): return v if len(v) == w else fit(v, w)
        if isinstance(v, int): return tobv(v, w)
        lo, hi = self.rng(v, w, False)
        m = (lo ^ hi).bit_length()
        return tuple([self.bit(v, i) if i < m else (lo >> i) & 1 for i in range(w)])

    # ---- arithmetic
    def add(self, a, b, w, sb=1):
        if isinstance(a, int) and isinstance(b, int): return (a + sb * b) & ((1 << w) - 1)
        a, b = fit(a, w), fit(b, w)
        if b == 0: return a
        if a == 0 and sb == 1: return b
        W = max(a.w if a.__class__ is LV else 0, b.w if b.__class__ is LV else 0)
        if W > w:
            d, k = terms(a, w)
            d2, k2 = terms(b, w)
            for s, c in d2.items(): d[s] = d.get(s, 0) + sb * c
            r = mk(d, k + sb * k2, W)
            if self.rng(r, W, False)[1] >> w == 0: return fit(r, w)
            return mk(d, k + sb * k2, w)
        if sb == 1 and isinstance(a, tuple) and isinstance(b, tuple):
            if not any(x and y for x, y in zip(a, b)): return tuple([x | y for x, y in zip(a, b)])
        d, k = terms(a, w)
        d2, k2 = terms(b, w)
        for s, c in d2.items(): d[s] = d.get(s, 0) + sb * c
        r = mk(d, k + sb * k2, w)
        if r.__class__ is LV and _REM and sb < 0: return _REM.get((r.t, r.k, r.w), r)
        return r

    def scale(self, a, c, w):
        if isinstance(a, int): return (a * c) & ((1 << w) - 1)
        a = fit(a, w)
        d, k = terms(a, w)
        if a.__class__ is LV and a.w > w and c > 0:
            r = mk({s: x * c for s, x in d.items()}, k * c, a.w)
            if self.rng(r, a.w, False)[1] >> w == 0 and self.rng(a, a.w, False)[1] * c >> w == 0: return fit(r, w)
        return mk({s: x * c for s, x in d.items()}, k * c, w)

    def logic(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == "and" else a | b if op == "or" else a ^ b
        M = (1 << w) - 1
        if op == "xor":
            if b == M and isinstance(a, LV):
                return mk({s: -c for s, c in a.t}, -a.k - 1, w)
            if a == M and isinstance(b, LV):
                return mk({s: -c for s, c in b.t}, -b.k - 1, w)
        if op == "and":
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if b == 0: return 0
                if b == M: return a
                if not (b & (b + 1)):
                    n = b.bit_length()
                    if isinstance(a, LV):
                        lo, hi = self.rng(a, w, False)
                        if hi <= b: return a
                        r = mk(dict(a.t), a.k, n)
                        return self.zext(r, n, w)
                if isinstance(a, LV):
                    a = self.bits(a, w)
                return simp(tuple([l if (b >> i) & 1 else 0 for i, l in enumerate(a)]))
        if op == "or":
            if a == 0: return b
            if b == 0: return a
        x, y = self.bits(a, w), self.bits(b, w)
        f = AND if op == "and" else OR if op == "or" else XOR
        return simp(tuple([f(p, q) for p, q in zip(x, y)]))

    def shl(self, a, n, w):
        if n == 0: return a
        if isinstance(a, int): return (a << n) & ((1 << w) - 1)
        if isinstance(a, tuple): return simp((0,) * n + fit(a, w)[:w - n])
        return self.scale(a, 1 << n, w)

    def lshr(self, a, n, w):
        if n == 0: return a
        if isinstance(a, int): return a >> n
        a = self.bits(a, w)
        return simp(a[n:] + (0,) * n)

    def ashr(self, a, n, w):
        if n == 0: return a
        if isinstance(a, int): return (sgn(a, w) >> n) & ((1 << w) - 1)
        a = self.bits(a, w)
        return simp(a[n:] + (a[-1],) * n)

    def trunc(self, a, w, w2):
        if isinstance(a, int): return a & ((1 << w2) - 1)
        if isinstance(a, tuple): return simp(a[:w2])
        if self.bounds and self.rng(a, w, False)[1] >> w2 == 0:
            if a.w >= w: return a
        return mk(dict(a.t), a.k, w2)

    def zext(self, a, w, w2):
        if isinstance(a, int): return a
        if isinstance(a, tuple): return fit(a, w) + (0,) * (w2 - w)
        if a.w >= w2 and a.w > w: return a
        sh = self._shift(a, w, False)
        if sh: return mk(sh[3], sh[2], w2)
        return self.bits(a, w) + (0,) * (w2 - w)

    def sext(self, a, w, w2):
        if isinstance(a, int): return sgn(a, w) & ((1 << w2) - 1)
        if isinstance(a, tuple):
            a = fit(a, w)
            return a + (a[-1],) * (w2 - w)
        sh = self._shift(a, w, True)
        if sh: return mk(sh[3], sh[2], w2)
        b = self.bits(a, w)
        return b + (b[-1],) * (w2 - w)

    def mul(self, a, b, w):
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int): return self.scale(a, b, w)
        return self.opaque("mul", w, a, b)

    def opaque(self, op, w, *args, hi=None):
        """result of an operation the domain does not interpret: a function of its operands"""
        n = w if hi is None else min(w, max(1, hi.bit_length()))
        return tuple(node((op, w, args, i)) for i in range(n)) + (0,) * (w - n)

    def divmod(self, a, c, w):
        """unsigned division by a constant: (quotient, remainder = a - c*q)"""
        if isinstance(a, int): return a // c, a % c
        a = fit(a, w)
        if c & (c - 1) == 0:
            n = c.bit_length() - 1
            return self.lshr(a, n, w), self.logic("and", a, c - 1, w)
        lo, hi = self.rng(a, w, False)
        if lo // c == hi // c:
            q = lo // c
            return q, self.add(a, q * c, w, -1)
        q = self.opaque("udiv", w, a, c, hi=hi // c)
        r = self.opaque("urem", w, a, c, hi=c - 1)
        dq, kq = terms(q, w)
        key, sg = self._key(dq)
        self._setb(key, lo // c, hi // c)          # q has positive coefficients
        dr, kr = terms(r, w)
        key, sg = self._key(dr)
        self._setb(key, 0, c - 1)
        f = self.add(a, self.scale(q, c, w), w, -1)          # a - c*q, written out, is the remainder
        if f.__class__ is LV: _REM[f.t, f.k, f.w] = r
        return q, r

    def le(self, d, c):
        """literal of  sum(d) <= c  over the integers"""
        d = {s: x for s, x in d.items() if x}
        if not d: return int(0 <= c)
        lo, hi = self.trng(d)
        if hi <= c: return 1
        if lo > c: return 0
        g = 0
        for x in d.values(): g = gcd(g, x)
        key, sg = self._key(d)
        if g > 1: key = tuple((s, x // g) for s, x in key)
        neg = 0
        if sg > 0: c = c // g
        else: c = -(c // g) - 1; neg = 1        # -sum(key) <= c/g  <=>  not (sum(key) <= -floor(c/g) - 1)
        if len(key) == 1: return (2 * key[0][0] + 1) ^ neg if c == 0 else (int(c > 0) ^ neg)
        big = rest = 0
        bs = None
        for s, x in key:
            if x < 0: big = 2; break
            if x > c: big += 1; bs = s
            else: rest += x
        if big == 1 and rest <= c: return (2 * bs + 1) ^ neg
        return node(("le", key, c)) ^ neg

    # ---- comparisons: return a literal
    def eq(self, a, b, w):
        a, b = fit(a, w), fit(b, w)
        if isinstance(a, int) and isinstance(b, int): return int(a == b)
        if a == b: return 1
        if isinstance(a, LV) and isinstance(b, tuple) or isinstance(a, tuple) and isinstance(b, LV):
            if isinstance(b, LV): a, b = b, a
            # a == zext(trunc(a)) or sext(trunc(a)): a range test
            n = w
            while n and b[n - 1] == b[w - 1]: n -= 1
            z = b[w - 1]
            if z == 0 and 0 < n < w and self.bits(self.trunc(a, w, n), n) == b[:n]: return self.lt(a, 1 << n, w, False)
            if z > 1 and n + 1 < w and self.bits(self.trunc(a, w, n + 1), n + 1) == b[:n + 1]:
                return AND(self.lt(a, (1 << w) - (1 << n), w, True) ^ 1, self.lt(a, 1 << n, w, True))
        if isinstance(a, LV) or isinstance(b, LV):
            d = self.add(a, b, w, -1)
            if isinstance(d, int): return int(d == 0)
            if isinstance(d, LV):
                lo, hi = self.rng(d, w, False)
                lo2, hi2 = self.rng(d, w, True)
                if lo > 0 or lo2 > 0 or hi2 < 0: return 0
                if lo == hi: return int(lo == 0)
                return node(("eq", d, 0, w))
            a, b = d, 0
        x, y = self.bits(a, w), self.bits(b, w)
        und = []
        for i in range(w):
            p, q = x[i], y[i]
            if p == q: continue
            if p ^ q == 1: return 0
            und.append((p, q))
        if not und: return 1
        u0 = und[0]
        if all(u == u0 for u in und): return XOR(u0[0], u0[1]) ^ 1
        if self.bounds and isinstance(b, int) or isinstance(a, int):
            if isinstance(a, int): a, b = b, a
            lo, hi = self.rng(a, w, False)
            if not (lo <= b <= hi): return 0
        if isinstance(a, tuple) and isinstance(b, tuple):      # canonical form: only the positions that differ
            und = sorted({(min(u), max(u)) for u in und})
            if any(p < 2 for p, _ in und):
                if all(p < 2 for p, _ in und): und = [(q ^ 1 if p == 0 else q, 1) for p, q in und]
            return node(("eq", tuple(p for p, _ in und), tuple(q for _, q in und), len(und)))
        if isinstance(a, int): a, b = b, a
        return node(("eq", a, b, w))

    def lt(self, a, b, w, signed):
        a, b = fit(a, w), fit(b, w)
        la, ha = self.rng(a, w, signed)
        lb, hb = self.rng(b, w, signed)
        if ha < lb: return 1
        if la >= hb: return 0
        if a == b: return 0
        if signed:
            if b == 0 and isinstance(a, tuple): return a[w - 1]
            if isinstance(a, int) and a == (1 << w) - 1 and isinstance(b, tuple): return b[w - 1] ^ 1
        # x < 2^m (or <= 2^m - 1) where one literal decides
        if isinstance(a, tuple) and isinstance(b, int) and la >= 0 and (not signed or sgn(b, w) > 0) and b & (b - 1) == 0:
            m = b.bit_length() - 1
            top = {l for l in a[m:] if l}
            if len(top) == 1: return next(iter(top)) ^ 1
        if isinstance(b, tuple) and isinstance(a, int) and lb >= 0 and (not signed or sgn(a, w) >= 0) and (a & (a + 1)) == 0:
            m = a.bit_length()
            top = {l for l in b[m:] if l}
            if len(top) == 1: return next(iter(top))
        # difference of the two integer forms
        sa, sb = self._form(a, w, signed), self._form(b, w, signed)
        if sa and sb:
            d = dict(sa[0])
            for s, c in sb[0].items(): d[s] = d.get(s, 0) - c
            return self.le(d, sb[1] - sa[1] - 1)
        # a linear form that wraps once, compared with a constant
        if isinstance(b, int) and isinstance(a, LV): return self._wraplt(a, sgn(b, w) if signed else b, w, signed)
        if isinstance(a, int) and isinstance(b, LV): return self._wraplt(b, (sgn(a, w) if signed else a) + 1, w, signed) ^ 1
        return node(("slt" if signed else "ult", a, b, w))

    def nowrap(self, v, w, signed):
        """literal deciding on which side of the (only) wrap-around the value lies, None if there is none or more than one"""
        if v.w != w or self._shift(v, w, signed): return None
        base = -(1 << (w - 1)) if signed else 0
        top = base + (1 << w)
        d = dict(v.t)
        a, b = self.trng(d)
        k = v.k - (((a + v.k - base) >> w) << w)
        if b + k < top + (1 << w): return self.le(d, top - 1 - k)
        return None

    def _wraplt(self, v, c, w, signed):
        """v < c where v = sum + k wraps at most once"""
        base = -(1 << (w - 1)) if signed else 0
        top = base + (1 << w)
        if c <= base: return 0
        if c >= top: return 1
        W = max(w, v.w)
        if v.w == w:
            d = dict(v.t)
            a, b = self.trng(d)
            m = (a + v.k - base) >> w
            k = v.k - (m << w)
            if b + k < top + (1 << w):
                # base <= sum + k < top: plain;  otherwise the value is sum + k - 2^w
                inside = self.le(d, top - 1 - k)
                return OR(AND(inside, self.le(d, c - 1 - k)), AND(inside ^ 1, self.le(d, c - 1 - k + (1 << w))))
        return node(("slt" if signed else "ult", v, c & ((1 << w) - 1), w))

    def _form(self, v, w, signed):
        if isinstance(v, int): return {}, (sgn(v, w) if signed else v)
        if isinstance(v, tuple):
            v = fit(v, w)
            n = w
            if signed:
                while n > 1 and v[n - 2] == v[n - 1]: n -= 1
                return terms(v[:n], n, True)
            return terms(v, w)
        sh = self._shift(v, w, signed)
        return (sh[3], sh[2]) if sh else None

    def cmp(self, op, a, b, w):
        if op == "eq": return self.eq(a, b, w)
        return self.lt(a, b, w, op == "slt")

    # ---- assuming a literal
    def assign(self, l, seen=None):
        """make literal l true"""
        l = self.L(l)
        if l == 1: return
        if l == 0: raise Infeasible()
        s, val = l >> 1, 1 - (l & 1)
        self.env[s] = val
        self.ver += 1; self._rc = {}
        d = DEF[s]
        if d is not None: self._refine(d, val)
        if self.neq: self._checkneq()
        if self.bounds: self._fixbounds()
        if self.cls and not self._busy: self._units()

    def _units(self):
        """clauses not (a and b): unit propagation"""
        self._busy = True
        try:
            again = True
            while again:
                again = False
                for p in list(self.cls):
                    a, b = self.L(p[0]), self.L(p[1])
                    if a == 0 or b == 0 or a ^ b == 1: self.cls.remove(p)
                    elif a == 1 or a == b: self.cls.remove(p); self.assign(b ^ 1); again = True
                    elif b == 1: self.cls.remove(p); self.assign(a ^ 1); again = True
                    if again: break
        finally: self._busy = False

    def _bound(self, d, lo, hi):
        """record lo <= sum(d) <= hi and fix the bits that it decides"""
        if lo > hi: raise Infeasible()
        d = {s: c for s, c in d.items() if c}
        if not d:
            if not (lo <= 0 <= hi): raise Infeasible()
            return
        key, sg = self._key(d)
        a, b = (lo, hi) if sg > 0 else (-hi, -lo)
        l2, h2 = self.trng(dict(key))
        if a > h2 or b < l2: raise Infeasible()
        if a > l2 or b < h2: self._setb(key, max(a, l2), min(b, h2))
        else: return
        mn = sum(c for _, c in key if c < 0); mx = sum(c for _, c in key if c > 0)
        for s, c in sorted(key, key=lambda x: -abs(x[1])):
            # s = 1 forces sum >= mn + c (c > 0) ...
            if c > 0: can1, can0 = mn + c <= b, mx - c >= a
            else: can1, can0 = mx + c >= a, mn - c <= b
            if can1 and can0: continue
            if not can1 and not can0: raise Infeasible()
            # the decided bit leaves the sum: tighten for the rest
            self.assign(2 * s if can1 else 2 * s + 1)
            if can1: a -= c; b -= c
            if c > 0: mx -= c
            else: mn -= c

    def alias(self, l, m):
        """make literals l and m equal"""
        l, m = self.L(l), self.L(m)
        if l == m: return
        if l ^ m == 1: raise Infeasible()
        if l < 2: l, m = m, l
        if m < 2: return self.assign(l if m else l ^ 1)
        if DEF[l >> 1] is None and DEF[m >> 1] is not None: pass
        elif DEF[m >> 1] is None and DEF[l >> 1] is not None: l, m = m, l
        elif l >> 1 < m >> 1: l, m = m, l
        if DEF[m >> 1] is not None and self._depends(m >> 1, l >> 1): return      # would define the bit in terms of itself
        self.env[l >> 1] = m ^ (l & 1)
        self.ver += 1; self._rc = {}

    def _depends(self, s, t, cap=4000):
        """does symbol s, under the substitutions, depend on symbol t?"""
        seen, work = {s}, [s]
        def lit(l):
            if l > 1: put(l >> 1)
        def put(x):
            if x not in seen: seen.add(x); work.append(x)
        def value(v):
            if v.__class__ is tuple:
                for l in v: lit(l)
            elif v.__class__ is LV:
                for x, _ in v.t: put(x)
        while work:
            x = work.pop()
            if x == t: return True
            if len(seen) > cap: return False
            e = self.env.get(x)
            if e is not None: lit(e)
            d = DEF[x]
            if d is None: continue
            if d[0] in ("and", "xor"): lit(d[1]); lit(d[2])
            elif d[0] in ("eq", "ult", "slt"): value(d[1]); value(d[2])
            elif d[0] == "le":
                for y, _ in d[1]: put(y)
            elif d[0] == "bit": value(d[1])
        return False

    def _refine(self, d, val):
        op = d[0]
        if op == "and":
            if val: self.assign(d[1]); self.assign(d[2])
            else:
                a, b = self.L(d[1]), self.L(d[2])
                if a == 1: self.assign(b ^ 1)
                elif b == 1: self.assign(a ^ 1)
                elif a and b: self.cls.append((a, b))
        elif op == "le":
            e, k = {}, 0
            for x, c in d[1]:
                l = self.L(2 * x)
                if l < 2: k += c * l
                else:
                    if l & 1: k += c; c = -c
                    e[l >> 1] = e.get(l >> 1, 0) + c
            lo, hi = self.trng(e)
            if val: self._bound(e, lo, min(hi, d[2] - k))
            else: self._bound(e, max(lo, d[2] + 1 - k), hi)
        elif op == "xor":
            self.alias(d[1], d[2] ^ 1 if val else d[2])
        elif op == "eq":
            a, b, w = self.N(d[1]), self.N(d[2]), d[3]
            if val: self.equate(a, b, w)
            else:
                if isinstance(b, int) and not isinstance(a, int):
                    for sg in (False, True):
                        f = self._form(a, w, sg)
                        if not f: continue
                        lo, hi = self.rng(a, w, sg); bb = sgn(b, w) if sg else b
                        if bb == lo: self.bound(a, w, sg, lo + 1, hi)
                        elif bb == hi: self.bound(a, w, sg, lo, hi - 1)
                        a = self.N(a)
                        if isinstance(a, int):
                            if a == b: raise Infeasible()
                            return
                if isinstance(a, tuple) or isinstance(b, tuple):
                    self.neq.append((a, b, w)); self._checkneq()
        elif op in ("ult", "slt"):
            a, b, w = self.N(d[1]), self.N(d[2]), d[3]
            sg = op == "slt"
            if not val: a, b = b, a          # b <= a
            la, ha = self.rng(a, w, sg); lb, hb = self.rng(b, w, sg)
            e = 1 if val else 0              # a + e <= b
            if not isinstance(a, int): self.bound(a, w, sg, la, min(ha, hb - e))
            elif la + e > hb: raise Infeasible()
            b = self.N(b)
            if not isinstance(b, int): self.bound(b, w, sg, max(lb, la + e), hb)
            if not isinstance(a, int) and not isinstance(b, int):
                a, b = self.N(a), self.N(b)
                fa, fb = self._form(a, w, sg), self._form(b, w, sg)
                if fa and fb:
                    x = dict(fa[0])
                    for s, c in fb[0].items(): x[s] = x.get(s, 0) - c
                    x = {s: c for s, c in x.items() if c}
                    if x:
                        lo, hi = self.trng(x)
                        hi = min(hi, fb[1] - fa[1] - e)
                        if lo > hi: raise Infeasible()
                        key, s_ = self._key(x)
                        self._setb(key, *((lo, hi) if s_ > 0 else (-hi, -lo)))

    def equate(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if a != b: raise Infeasible()
            return
        if isinstance(a, LV) or isinstance(b, LV):
            d = self.add(a, b, w, -1)
            if isinstance(d, int):
                if d: raise Infeasible()
                return
            if isinstance(d, LV):
                sh = self._shift(d, w, True)
                if sh: self.bound(d, w, True, 0, 0)
                return
            a, b = d, 0
        x, y = self.bits(a, w), self.bits(b, w)
        for p, q in zip(x, y): self.alias(p, q)

    def bound(self, v, w, signed, lo, hi):
        """record lo <= v <= hi"""
        if lo > hi: raise Infeasible()
        f = self._form(v, w, signed)
        if f:
            d, k = f
            self._bound(d, lo - k, hi - k)

    def _checkneq(self):
        for (a, b, w) in self.neq:
            x, y = self.N(a), self.N(b)
            if isinstance(x, LV) or isinstance(y, LV): continue
            x, y = self.bits(x, w), self.bits(y, w)
            und = []
            for p, q in zip(x, y):
                if p == q: continue
                if p ^ q == 1: und = None; break
                und.append((p, q))
            if und is None: continue
            if not und: raise Infeasible()
            if all(u == und[0] for u in und):
                p, q = und[0]
                l = XOR(p, q)
                if self.L(l) != 1:
                    self.neq = [n for n in self.neq if n != (a, b, w)]
                    self.assign(l)
                    return

    def try_assign(self, l):
        try:
            self.assign(l)
            return True
        except Infeasible:
            return False
