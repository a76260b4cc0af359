"""Concretisation of a partition: is there an input that satisfies the facts (and makes a given condition true)?

The abstract interpretation separates the inputs into partitions described by facts.  The facts are propagated locally and may
describe no input at all; a violation is only reported for a partition that contains an input, which this module exhibits.
Bounded backtracking over the input bits that the facts mention; every definition is evaluated exactly."""
import math, random, struct
import bitdom
from bitdom import Facts, Infeasible, LV, sgn, XOR

class Uneval(Exception): pass

def _f(a, w): return struct.unpack("<d", struct.pack("<Q", a))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", a))[0]
def _b(x, w):
    if w == 64: return struct.unpack("<Q", struct.pack("<d", x))[0]
    try: return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError: return 0x7F800000 if x > 0 else 0xFF800000

class Eval:
    """exact value of literals and values under a total assignment of the input bits (missing ones are 0)"""
    def __init__(self, sigma): self.s, self.m = sigma, {}
    def lit(self, l):
        if l < 2: return l
        return self.sym(l >> 1) ^ (l & 1)
    def sym(self, s):
        r = self.m.get(s)
        if r is None:
            d = bitdom.DEF[s]
            r = self.s.get(s, 0) if d is None else self.defn(d)
            self.m[s] = r
        return r
    def val(self, v, w):
        if isinstance(v, int): return v & ((1 << w) - 1)
        if isinstance(v, tuple): return sum(self.lit(l) << i for i, l in enumerate(v[:w]))
        if isinstance(v, LV): return (v.k + sum(c * self.sym(s) for s, c in v.t)) & ((1 << w) - 1)
        raise Uneval()
    def defn(self, d):
        op = d[0]
        if op == "and": return self.lit(d[1]) & self.lit(d[2])
        if op == "xor": return self.lit(d[1]) ^ self.lit(d[2])
        if op in ("eq", "ult", "slt"):
            a, b = self.val(d[1], d[3]), self.val(d[2], d[3])
            if op == "eq": return int(a == b)
            return int(a < b) if op == "ult" else int(sgn(a, d[3]) < sgn(b, d[3]))
        if op == "le": return int(sum(c * self.sym(x) for x, c in d[1]) <= d[2])
        if op == "bit": return (self.val(d[1], d[2] + 1) >> d[2]) & 1
        op, w, args, i = d
        r = self.m.get((op, w, args))
        if r is None: r = self.m[op, w, args] = self.op(op, w, args)
        return (r >> i) & 1
    def op(self, op, w, args):
        if op in ("udiv", "urem", "sdiv", "srem", "mul"):
            a, b = self.val(args[0], w), self.val(args[1], w)
            M = (1 << w) - 1
            if op == "mul": return (a * b) & M
            if b == 0: raise Uneval()
            if op == "udiv": return a // b
            if op == "urem": return a % b
            a, b = sgn(a, w), sgn(b, w)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return (q if op == "sdiv" else a - q * b) & M
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = _f(self.val(args[0], w), w), _f(self.val(args[1], w), w)
            try: return _b({"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op](), w)
            except (ZeroDivisionError, OverflowError): raise Uneval()
        if op.startswith("fcmp"):
            raise Uneval()
        raise Uneval()

def support(l, acc, seen):
    """input symbols a literal depends on"""
    st = [l >> 1] if l > 1 else []
    while st:
        s = st.pop()
        if s in seen: continue
        seen.add(s)
        d = bitdom.DEF[s]
        if d is None: acc.add(s); continue
        op = d[0]
        if op in ("and", "xor"): st.extend(x >> 1 for x in d[1:3] if x > 1)
        elif op == "le": st.extend(x for x, _ in d[1])
        else:
            vs = d[1:3] if op in ("eq", "ult", "slt") else (d[1],) if op == "bit" else d[2]
            for v in vs:
                if isinstance(v, tuple): st.extend(x >> 1 for x in v if isinstance(x, int) and x > 1)
                elif isinstance(v, LV): st.extend(s for s, _ in v.t)
    return acc

def vsupport(v, acc, seen):
    if isinstance(v, tuple):
        for l in v: support(l, acc, seen)
    elif isinstance(v, LV):
        for s, _ in v.t: support(2 * s, acc, seen)
    return acc

def holds(F, ev):
    """do the facts hold for the assignment?"""
    for s, l in F.env.items():
        if ev.sym(s) != ev.lit(l): return False
    for key, (lo, hi) in F.bounds.items():
        if not (lo <= sum(c * ev.sym(s) for s, c in key) <= hi): return False
    for a, b, w in F.neq:
        if ev.val(a, w) == ev.val(b, w): return False
    for a, b in F.cls:
        if ev.lit(a) and ev.lit(b): return False
    return True

class Differ:
    """condition: two values differ"""
    def __init__(self, a, b, w): self.a, self.b, self.w = a, b, w
    def __call__(self, ev): return ev.val(self.a, self.w) != ev.val(self.b, self.w)
    def parts(self, F):
        """partitions of F that together contain all inputs satisfying the condition: one per bit that may differ; None if unknown"""
        try: a, b = F.bits(F.N(self.a), self.w), F.bits(F.N(self.b), self.w)
        except Exception: return None
        out = []
        for x, y in zip(a, b):
            x, y = F.L(x), F.L(y)
            if x == y: continue
            if x ^ y == 1: return [F.copy()]
            if x > 1 and y > 1: return None
            f = F.copy()
            if f.try_assign(x ^ y): out.append(f)
        return out

def witness(F, cond=None, extra=(), limit=400):
    """as search, first in the partitions in which the condition is a fact"""
    if isinstance(cond, Differ):
        ps = cond.parts(F)
        if ps is not None and len(ps) <= 64:
            rs = []
            for f in ps:
                r = search(f, cond, extra, limit)
                if r[0] == "yes": return r
                rs.append(r[0])
                if len(rs) > 8: break
            else:
                if all(r == "no" for r in rs): return "no", None
    return search(F, cond, extra, limit)

def search(F, cond=None, extra=(), limit=400):
    """("yes", sigma) an input in the partition satisfying cond exists; ("no", None) none does; ("unknown", None)"""
    groups = []
    seen = set()
    for key, _ in sorted(F.bounds.items(), key=lambda kv: len(kv[0])):
        g = set()
        for s, _ in key: support(2 * s, g, seen)
        if g: groups.append(sorted(g))
    g = set()
    for a, b, w in F.neq: vsupport(a, g, seen); vsupport(b, g, seen)
    for s in F.env:
        support(2 * s, g, seen); support(F.env[s], g, seen)
    groups.append(sorted(g))
    g = set()
    for v in extra: vsupport(v, g, seen)
    groups.append(sorted(g))
    order = [s for gr in groups for s in gr]
    budget = [0]
    def leaf(f):
        sg = {}
        for s in order:
            l = f.L(2 * s)
            sg[s] = l if l < 2 else None
        ev0 = Eval({})
        # symbols aliased to others take their value
        for s in order:
            if sg[s] is None:
                l = f.L(2 * s)
                sg[s] = 0 if l >> 1 == s else Eval({k: v or 0 for k, v in sg.items()}).lit(l)
        ev = Eval(sg)
        if not holds(F, ev): return None
        if cond is not None and not cond(ev): return None
        return sg
    def dfs(f, i, rnd, cap):
        # iterative to keep the stack small
        stack = [(f, i)]
        while stack:
            f, i = stack.pop()
            while i < len(order):
                l = f.L(2 * order[i])
                if l < 2 or l >> 1 != order[i]: i += 1; continue
                break
            if i >= len(order):
                budget[0] += 1
                r = leaf(f)
                if r is not None: return r
                if budget[0] > cap: return "cap"
                continue
            budget[0] += 1
            if budget[0] > cap: return "cap"
            l = 2 * order[i]
            g1 = f.copy()
            nxt = []
            if rnd.random() < 0.5: l ^= 1
            try:
                ok = g1.try_assign(l)
            except RecursionError: ok = False
            if ok: nxt.append((g1, i + 1))
            if f.try_assign(l ^ 1): nxt.append((f, i + 1))
            stack.extend(reversed(nxt))
        return None
    try:
        for k in range(3):
            budget[0] = 0
            r = dfs(F.copy(), 0, random.Random(k), 20 + 2 * len(order) if k < 2 else limit)
            if r is None: return "no", None
            if r != "cap": return "yes", r
        return "unknown", None
    except Uneval:
        return "uneval", None

def describe(sigma):
    """the input bits of the witness, grouped by name"""
    by = {}
    for s, v in sigma.items():
        n = bitdom.NAME[s]
        if n is None: continue
        if "[" in n:
            b, i = n[:-1].split("[")
            by.setdefault(b, []).append((int(i), v))
        else: by.setdefault(n, []).append((0, v))
    return ", ".join("%s=%#x" % (b, sum(v << i for i, v in x)) for b, x in sorted(by.items())[:12])
