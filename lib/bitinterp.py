"""Path-partitioned abstract interpretation of LLVM IR over the bit-provenance domain (bitdom).

States are partitioned on branches that the facts do not decide; the number of partitions and of abstract steps is
limited.  Memory is a set of objects made of byte cells; every access is checked against the object it must stay in.
"""
import re
from bitdom import *
from bitdom import simp
import llir
from llir import parse_init

UNDEF = type("Undef", (), {"__repr__": lambda s: "undef"})()

class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off): self.o, self.off = o, off     # off: signed int, or a 64-bit abstract value
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.off == x.off
    def __ne__(self, x): return not self == x
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return "Ptr(%r%+d)" % (self.o, self.off) if isinstance(self.off, int) else "Ptr(%r+%r)" % (self.o, self.off)

class FnPtr:
    def __init__(self, name): self.name = name
    def __eq__(self, x): return isinstance(x, FnPtr) and self.name == x.name
    def __hash__(self): return hash(self.name)

class Obj:
    __slots__ = ("cells", "name", "ro", "elem")
    def __init__(self, cells, name, ro=False): self.cells, self.name, self.ro = cells, name, ro
    def copy(self):
        o = Obj(list(self.cells), self.name, self.ro); return o

class Event(Exception):
    """a fault found on a path"""
    def __init__(self, kind, msg, fatal=True):
        self.kind, self.msg, self.fatal = kind, msg, fatal
        Exception.__init__(self, msg)

class Need(Exception):
    """the current instruction needs a concrete value: the path is split"""
    def __init__(self, v, w): self.v, self.w = v, w

class NeedBit(Exception):
    def __init__(self, l): self.l = l

class Frame:
    __slots__ = ("f", "regs", "blk", "code", "pc", "dest", "prev", "objs", "ret")
    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.regs, n.blk, n.code, n.pc, n.dest, n.prev, n.objs = self.f, dict(self.regs), self.blk, self.code, self.pc, self.dest, self.prev, list(self.objs)
        return n

class State:
    __slots__ = ("F", "mem", "own", "frames", "steps", "events", "log", "user")
    def __init__(self):
        self.F = Facts(); self.mem, self.own, self.frames = {}, set(), []
        self.steps, self.events, self.log, self.user = 0, [], [], {}
    def copy(self):
        n = State.__new__(State)
        n.F = self.F.copy(); n.mem = dict(self.mem); n.own = set(); self.own = set()
        n.frames = [f.copy() for f in self.frames]
        n.steps, n.events, n.log, n.user = self.steps, list(self.events), list(self.log), dict(self.user)
        return n
    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = self.mem[oid] = o.copy(); self.own.add(oid)
        return o
    def where(self, eng):
        return " < ".join("%s:%d" % (f.f.name, eng.line(f.code[min(f.pc, len(f.code) - 1)])) for f in reversed(self.frames[-4:]))

class Budget(Exception):
    """kind "budget": too many steps (a loop that does not end); "imprecise": too many partitions for the analysis"""
    def __init__(self, msg, kind="budget"):
        Exception.__init__(self, msg); self.kind = kind

class Engine:
    def __init__(self, mod, overrides=None, max_steps=400000, max_paths=4000, max_split=300, depth=40):
        self.M = mod
        self.over = dict(BUILTINS); self.over.update(overrides or {})
        self.max_steps, self.max_paths, self.max_split, self.depth = max_steps, max_paths, max_split, depth
        self.psz, self.pw, self.le = mod.psize, mod.psize * 8, mod.le
        self.ids = 0
        self.visited = set()          # functions interpreted
        self.total_steps = 0
        self._lines = {}
        self.base = {}
        self._globals()

    # ------------------------------------------------------------- set-up
    def newid(self, tag):
        self.ids += 1
        return "%s#%d" % (tag, self.ids)

    def _globals(self):
        for name, g in self.M.globals.items():
            if g["init"] is None:
                self.base[name] = Obj([None] * g["ty"].size, name, g["const"]); continue
            cells = [0] * g["ty"].size
            self._init(cells, 0, g["ty"], parse_init(self.M, g["ty"], g["init"]))
            self.base[name] = Obj(cells, name, g["const"])

    def _init(self, cells, off, ty, d):
        if d[0] == "bytes":
            cells[off:off + len(d[1])] = d[1]
        elif d[0] == "list":
            if ty.k == "arr":
                for i, (t, x) in enumerate(d[1]): self._init(cells, off + i * ty.el.size, t, x)
            else:
                for (t, x), (et, eo) in zip(d[1], ty.els): self._init(cells, off + eo, t, x)
        else:
            v = d[1]
            if v[0] == "z": return
            if v[0] == "u":
                for i in range(ty.size): cells[off + i] = None
                return
            val = self.const(v)
            self._put(cells, off, val, ty.size, ty.w)

    def state(self):
        s = State()
        s.mem = dict(self.base)
        return s

    def obj(self, st, n, name, fill=None, ro=False):
        oid = self.newid(name)
        st.mem[oid] = Obj([fill] * n if not isinstance(fill, list) else list(fill), name, ro)
        return oid

    def line(self, ins):
        d = ins[-1]
        l = self._lines.get(d)
        if l is None:
            m = re.search(r"line: (\d+)", self.M.meta.get(d, "")) if isinstance(d, int) else None
            l = self._lines[d] = int(m.group(1)) if m else 0
        return l

    # ------------------------------------------------------------- operands
    def const(self, o):
        k = o[0]
        if k == "c": return o[1]
        if k == "u": return UNDEF
        if k == "g":
            n = o[1]
            return FnPtr(n[1:].strip('"')) if n[1:].strip('"') in self.M.funcs or n in self.M.decls else Ptr(n, 0)
        if k == "gep":
            b = self.const(o[2])
            return self.gep(None, o[1], b, [(t, self.const(v)) for t, v in o[3]])
        if k == "cast":
            v = self.const(o[3])
            if o[1] in ("inttoptr", "ptrtoint", "bitcast"): return v
            if o[1] == "trunc": return v & ((1 << o[4].w) - 1)
            if o[1] == "zext": return v
            if o[1] == "sext": return sgn(v, o[2].w) & ((1 << o[4].w) - 1)
        if k == "cbin":
            a, b = self.const(o[3]), self.const(o[4])
            if isinstance(a, int) and isinstance(b, int):
                m = (1 << o[2].w) - 1
                return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[o[1]] & m
            if o[1] == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return (a.off - b.off) & ((1 << o[2].w) - 1)
        if k == "z": return ("zero", o[1])
        raise Unsupported("constant %r" % (o,))

    def gep(self, st, bt, base, idx):
        if isinstance(base, int):
            # arithmetic on a null (or integer) pointer: keep it as an integer, an access will be reported
            base = Ptr(None, base)
        if not isinstance(base, Ptr): self._noaddr(st, base, "gep on %r")
        off = base.off
        t = None
        for i, (it, v) in enumerate(idx):
            if i == 0: sz, t2 = bt.size, bt
            elif t.k == "struct":
                et, eo = t.els[v]
                off = self._offadd(st, off, eo); t = et
                continue
            else: sz, t2 = t.el.size, t.el
            t = t2
            if isinstance(v, int): off = self._offadd(st, off, sgn(v, it.w) * sz)
            else:
                if v is UNDEF: raise Event("uninit", "index is an undefined value")
                if it.w < 64: v = st.F.sext(v, it.w, 64)
                off = self._offadd(st, off, st.F.scale(v, sz, 64))
        return Ptr(base.o, off)

    def _noaddr(self, st, p, what):
        if any(k == "uninit" for k, _, _ in st.events): raise Event("uninit", "address computed from undefined values")
        raise Unsupported(what % (p,))

    def _offadd(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            r = a + b
            if r >= 1 << 63: r -= 1 << 64
            return r
        M = (1 << 64) - 1
        if isinstance(a, int): a &= M
        if isinstance(b, int): b &= M
        r = st.F.add(a, b, 64)
        return sgn(r, 64) if isinstance(r, int) else r

    # ------------------------------------------------------------- memory
    def locate(self, st, p, n, write):
        """checks an access of n bytes through p; returns (object id, concrete offset)"""
        if isinstance(p, int) or (isinstance(p, Ptr) and p.o is None):
            raise Event("oob", "%s through a null pointer" % ("write" if write else "read"))
        if p is UNDEF: raise Event("uninit", "pointer is an undefined value")
        if not isinstance(p, Ptr): self._noaddr(st, p, "access through %r")
        o = st.mem.get(p.o)
        if o is None: raise Event("oob", "%s of a dead object" % ("write" if write else "read"))
        off = p.off
        size = len(o.cells)
        if not isinstance(off, int):
            off = st.F.N(off)
            if isinstance(off, int): off = sgn(off, 64)
            else:
                lo, hi = st.F.rng(off, 64, True)
                if hi - lo > self.max_split or lo < 0 or hi + n > size:
                    l = st.F.L(st.F.lt(off, size - n + 1, 64, False)) if size >= n else 0
                    if l > 1: raise NeedBit(l)
                    if l == 0:
                        raise Event("oob", "%s of %d byte(s) outside '%s' (%d bytes), at an offset in %d..%d" % ("write" if write else "read", n, o.name, size, lo, hi))
                raise Need(off, 64)
        if off < 0 or off + n > size:
            raise Event("oob", "%s of %d byte(s) at offset %d of '%s' which has %d bytes" % ("write" if write else "read", n, off, o.name, size))
        if write and o.ro: raise Event("rowrite", "write to constant object '%s'" % o.name)
        return p.o, off

    def _put(self, cells, off, v, n, w):
        le = self.le
        if isinstance(v, int):
            for i in range(n):
                cells[off + (i if le else n - 1 - i)] = (v >> (8 * i)) & 255
        elif isinstance(v, tuple):
            if len(v) < 8 * n: v = v + (0,) * (8 * n - len(v))
            for i in range(n):
                b = v[8 * i:8 * i + 8]
                r = 0
                for j, l in enumerate(b):
                    if l > 1: r = b; break
                    if l: r |= 1 << j
                cells[off + (i if le else n - 1 - i)] = r
        elif v is UNDEF:
            for i in range(n): cells[off + i] = None
        else:
            for i in range(n): cells[off + i] = ("V", v, i, n)

    def store(self, st, p, v, n, w):
        oid, off = self.locate(st, p, n, True)
        if isinstance(v, (tuple, LV)): v = st.F.N(v)
        self._put(st.w(oid).cells, off, v, n, w)
        h = self.on_store
        if h: h(st, oid, off, n)
    on_store = None

    def load(self, st, p, n, w):
        oid, off = self.locate(st, p, n, False)
        cells = st.mem[oid].cells
        if n == 1:
            c = cells[off]
            if isinstance(c, int):
                return c if w == 8 else c & ((1 << w) - 1)
        seg = cells[off:off + n]
        if not self.le: seg = seg[::-1]
        r = 0
        for i, c in enumerate(seg):
            if c.__class__ is not int: break
            r |= c << (8 * i)
        else:
            return r & ((1 << w) - 1) if w < 8 * n else r
        c0 = seg[0] if self.le else seg[-1]
        if isinstance(c0, tuple) and c0 and c0[0] == "V" and c0[3] == n and c0[2] == 0:
            v = c0[1]
            if all(isinstance(c, tuple) and len(c) == 4 and c[0] == "V" and c[1] is v and c[2] == (i if self.le else n - 1 - i) for i, c in enumerate(seg)):
                return v if not isinstance(v, (tuple, LV)) else st.F.N(v)
        bits = []
        for i, c in enumerate(seg):
            if c is None:
                self.event(st, Event("uninit", "read of uninitialised byte %d of '%s'" % (off + i, st.mem[oid].name), False))
                return self._havoc(st, oid, off, n, w)
            if isinstance(c, int): bits.extend((c >> j) & 1 for j in range(8))
            elif c[0] == "V" and len(c) == 4:
                v = c[1]
                if isinstance(v, (Ptr, FnPtr)): raise Unsupported("bytes of a pointer")
                b = st.F.bits(v, c[3] * 8)
                k = c[2] if self.le else c[3] - 1 - c[2]
                bits.extend(b[8 * k:8 * k + 8])
            else: bits.extend(c)
        return st.F.N(simp(tuple(bits[:w])))

    def _havoc(self, st, oid, off, n, w):
        v = fresh_bits("undef", 8 * n)
        self._put(st.w(oid).cells, off, v, n, 8 * n)
        return simp(v[:w])

    def event(self, st, e):
        st.events.append((e.kind, e.msg, st.where(self)))

    # ------------------------------------------------------------- running
    def call(self, st, name, args):
        F = self.M.funcs.get(name)
        if F is None: raise Unsupported("function %s is not in the analysed program" % name)
        self.push(st, F, args, None)

    def push(self, st, F, args, dest):
        if len(st.frames) >= self.depth: raise Event("recursion", "call depth exceeds %d in %s" % (self.depth, F.name))
        fr = Frame()
        fr.f, fr.dest, fr.prev, fr.objs = F, dest, None, []
        fr.regs = {pn: a for (t, pn), a in zip(F.params, args)}
        fr.blk = F.order[0]; fr.code = F.blocks[fr.blk]; fr.pc = 0
        st.frames.append(fr)
        self.visited.add(F.name)

    def run(self, st):
        """explores all partitions; yields final states (user['ret'] holds the returned value, or events with fatal end)"""
        work = [st]; paths = 0
        while work:
            s = work.pop()
            try:
                out = self.go(s)
            except Budget as b:
                s.events.append((b.kind, str(b), s.where(self)))
                s.user["fault"] = b.kind
                yield s
                paths += 1
                continue
            if out is None:
                yield s
                paths += 1
                if paths > self.max_paths:
                    s2 = work[-1] if work else s
                    s2.events.append(("imprecise", "more than %d partitions" % self.max_paths, "")); s2.user["fault"] = "imprecise"
                    yield s2
                    return
            else:
                work.extend(out)

    def go(self, st):
        """runs until return of the outermost frame (None) or a split (list of states)"""
        while True:
            fr = st.frames[-1]
            code = fr.code
            try:
                while True:
                    ins = code[fr.pc]
                    st.steps += 1
                    op = ins[0]
                    h = DISPATCH[op]
                    r = h(self, st, fr, ins)
                    if r is None:
                        fr.pc += 1
                    elif r == 1:          # frame or block changed
                        if not st.frames:
                            self.total_steps += st.steps
                            return None
                        fr = st.frames[-1]; code = fr.code
                        if st.steps > self.max_steps: raise Budget("more than %d abstract steps" % self.max_steps)
            except Need as nd:
                return self.split_value(st, nd)
            except NeedBit as nb:
                return self.split_bit(st, nb.l)
            except Event as e:
                self.event(st, e)
                st.user["fault"] = e.kind
                return None
            except Infeasible:
                st.user["fault"] = "infeasible"
                return []

    def split_bit(self, st, l):
        o = st.copy()
        out = []
        if o.F.try_assign(l ^ 1): out.append(o)
        if st.F.try_assign(l): out.append(st)
        return out

    def split_value(self, st, nd):
        v, w = st.F.N(nd.v), nd.w
        if isinstance(v, int): return [st]
        lo, hi = st.F.rng(v, w, False)
        if hi - lo > self.max_split:
            lo, hi = st.F.rng(v, w, True)
        out = []
        if hi - lo > self.max_split:
            raise Budget("value with %d possibilities must be known" % (hi - lo + 1), "imprecise")
        M = (1 << w) - 1
        for x in range(lo, hi + 1):
            o = st.copy()
            try:
                o.F.equate(v, x & M, w)
                if not isinstance(o.F.N(v), int):
                    # the facts cannot express the equality: remember it as a definition
                    raise Unsupported("cannot pin %r" % (v,))
                out.append(o)
            except Infeasible: pass
        return out

    def truth(self, st, v):
        if v is UNDEF:
            self.event(st, Event("uninit", "branch on an undefined value", False))
            return None
        if isinstance(v, int): return v & 1
        l = st.F.L(v[0])
        return l if l < 2 else NeedBit(l)

# ------------------------------------------------------------------ instructions
def V(E, fr, o):
    k = o[0]
    if k == "r":
        return fr.regs[o[1]]
    if k == "c": return o[1]
    return E.const(o)

def X(E, st, fr, o):
    """operand for computation"""
    k = o[0]
    if k == "c": return o[1]
    v = fr.regs[o[1]] if k == "r" else E.const(o)
    c = v.__class__
    if c is int: return v
    if c is tuple or c is LV: return st.F.N(v)
    if v is UNDEF:
        E.event(st, Event("uninit", "use of an undefined value", False))
        v = fresh_bits("undef", 64)
        return v
    return v

def i_bin(E, st, fr, ins):
    _, d, op, ty, a, b, _ = ins
    a = X(E, st, fr, a); b = X(E, st, fr, b)
    w = ty.w
    if a.__class__ is int and b.__class__ is int:
        M = (1 << w) - 1
        if op == "add": r = (a + b) & M
        elif op == "sub": r = (a - b) & M
        elif op == "and": r = a & b
        elif op == "or": r = a | b
        elif op == "xor": r = a ^ b
        elif op == "shl": r = (a << b) & M if b < w else 0
        elif op == "lshr": r = a >> b if b < w else 0
        elif op == "ashr": r = (sgn(a, w) >> min(b, w - 1)) & M
        elif op == "mul": r = (a * b) & M
        elif op in ("udiv", "urem", "sdiv", "srem"):
            if b == 0: raise Event("ub", "division by zero")
            if op == "udiv": r = a // b
            elif op == "urem": r = a % b
            else:
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                r = (q if op == "sdiv" else x - q * y) & M
        else: r = fpbin(E, st, op, a, b, w)
        fr.regs[d] = r
        return
    F = st.F
    if isinstance(a, tuple) and len(a) != w: a = a[:w]
    if isinstance(b, tuple) and len(b) != w: b = b[:w]
    if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            x, y = a.off, b.off
            if isinstance(x, int) and isinstance(y, int): r = (x - y) & ((1 << w) - 1)
            else:
                M64 = (1 << 64) - 1
                r = F.add(x & M64 if isinstance(x, int) else x, y & M64 if isinstance(y, int) else y, 64, -1)
                if w < 64: r = F.trunc(r, 64, w)
        elif op == "add" and isinstance(a, Ptr): r = Ptr(a.o, E._offadd(st, a.off, sgn(b, w) if isinstance(b, int) else b))
        else: raise Unsupported("pointer arithmetic %s" % op)
        fr.regs[d] = r
        return
    if op == "add": r = F.add(a, b, w)
    elif op == "sub": r = F.add(a, b, w, -1)
    elif op in ("and", "or", "xor"): r = F.logic(op, a, b, w)
    elif op in ("shl", "lshr", "ashr"):
        if not isinstance(b, int): raise Need(b, w)
        if b >= w: raise Event("ub", "shift by %d of a %d-bit value" % (b, w))
        r = F.shl(a, b, w) if op == "shl" else F.lshr(a, b, w) if op == "lshr" else F.ashr(a, b, w)
    elif op == "mul": r = F.mul(a, b, w)
    elif op in ("udiv", "urem", "sdiv", "srem"):
        if not isinstance(b, int):
            lo, hi = F.rng(b, w, False)
            if hi - lo <= 64: raise Need(b, w)
            r = F.opaque(op, w, a, b)
        else:
            if b == 0: raise Event("ub", "division by zero")
            if op[0] == "s":
                lo, hi = F.rng(a, w, True)
                if lo < 0 or sgn(b, w) < 0:
                    if hi < 0 and sgn(b, w) > 0:
                        q, m = F.divmod(F.scale(a, -1, w), b, w)
                        r = F.scale(q if op == "sdiv" else m, -1, w)
                    elif lo < 0 <= hi:
                        l = F.lt(a, 0, w, True)
                        if l > 1: raise NeedBit(l)
                        r = F.opaque(op, w, a, b)
                    else: r = F.opaque(op, w, a, b)
                    fr.regs[d] = r
                    return
            q, m = F.divmod(a, b, w)
            r = q if op[1:] == "div" else m
    else: r = fpbin(E, st, op, a, b, w)
    fr.regs[d] = r

import struct
def tof(a, w):
    return struct.unpack("<d", struct.pack("<Q", a))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", a))[0]
def fromf(x, w):
    if w == 64: return struct.unpack("<Q", struct.pack("<d", x))[0]
    try: return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError: return 0x7F800000 if x > 0 else 0xFF800000

def fpbin(E, st, op, a, b, w):
    if isinstance(a, int) and isinstance(b, int) and w in (32, 64):
        x, y = tof(a, w), tof(b, w)
        try:
            r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
            return fromf(r, w)
        except (ZeroDivisionError, KeyError, OverflowError): pass
    return st.F.opaque(op, w, a, b)

def i_cast(E, st, fr, ins):
    _, d, op, t1, a, t2, _ = ins
    a = X(E, st, fr, a)
    F = st.F
    if isinstance(a, tuple) and t1.k != "ptr" and len(a) != t1.w: a = a[:t1.w]
    if isinstance(a, (Ptr, FnPtr)): r = a
    elif op == "zext" or op == "sext":
        if a.__class__ is LV:
            l = F.nowrap(a, t1.w, op == "sext")
            if l is not None:
                l = F.L(l)
                if l > 1: raise NeedBit(l)
        r = F.zext(a, t1.w, t2.w) if op == "zext" else F.sext(a, t1.w, t2.w)
    elif op == "trunc": r = F.trunc(a, t1.w, t2.w)
    elif op in ("bitcast", "ptrtoint", "inttoptr"): r = a
    elif isinstance(a, int) and op in ("fpext", "fptrunc"): r = fromf(tof(a, t1.w), t2.w)
    elif isinstance(a, int) and op in ("sitofp", "uitofp"):
        r = fromf(float(sgn(a, t1.w) if op == "sitofp" else a), t2.w)
    elif isinstance(a, int) and op in ("fptosi", "fptoui"):
        x = tof(a, t1.w)
        if x != x or x in (float("inf"), float("-inf")): raise Event("ub", "conversion of %r to an integer" % x)
        r = int(x)
        if not (-(1 << (t2.w - 1)) <= r < (1 << (t2.w - (op == "fptosi")))): raise Event("ub", "conversion of %r to a %d-bit integer" % (x, t2.w))
        r &= (1 << t2.w) - 1
    else: r = F.opaque(op + str(t1.w), t2.w, a)
    fr.regs[d] = r

def icmp(E, st, p, a, b, w):
    """literal"""
    F = st.F
    pa, pb = isinstance(a, (Ptr, FnPtr)), isinstance(b, (Ptr, FnPtr))
    if pa or pb:
        if pa and pb:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                M = (1 << 64) - 1
                if isinstance(a.off, int) and isinstance(b.off, int):
                    x, y = a.off, b.off
                    return int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p])
                x = a.off & M if isinstance(a.off, int) else F.N(a.off); y = b.off & M if isinstance(b.off, int) else F.N(b.off)
                p2 = p.replace("u", "s") if p not in ("eq", "ne") else p
                return icmp(E, st, p2, x, y, 64)
            if p == "eq": return 0 if type(a) is type(b) or True else 0
            if p == "ne": return 1
            raise Event("ub", "ordering of pointers to different objects")
        o, z = (a, b) if pa else (b, a)
        if z == 0:
            if p == "eq": return 0
            if p == "ne": return 1
            if p in ("ugt",): return int(pa)
            if p in ("ult",): return int(not pa)
        raise Unsupported("comparison of a pointer with %r" % (z,))
    if a.__class__ is int and b.__class__ is int:
        if p == "eq": return int(a == b)
        if p == "ne": return int(a != b)
        if p[0] == "s": a, b = sgn(a, w), sgn(b, w)
        q = p[1:]
        return int(a < b if q == "lt" else a <= b if q == "le" else a > b if q == "gt" else a >= b)
    if isinstance(a, tuple) and len(a) != w: a = a[:w]
    if isinstance(b, tuple) and len(b) != w: b = b[:w]
    if p == "eq": return F.L(F.eq(a, b, w))
    if p == "ne": return F.L(F.eq(a, b, w)) ^ 1
    s = p[0] == "s"
    q = p[1:]
    if q == "lt": return F.L(F.lt(a, b, w, s))
    if q == "gt": return F.L(F.lt(b, a, w, s))
    if q == "ge": return F.L(F.lt(a, b, w, s)) ^ 1
    return F.L(F.lt(b, a, w, s)) ^ 1

def i_icmp(E, st, fr, ins):
    _, d, p, ty, a, b, _ = ins
    l = icmp(E, st, p, X(E, st, fr, a), X(E, st, fr, b), ty.w)
    fr.regs[d] = l if l < 2 else (l,)

def i_fcmp(E, st, fr, ins):
    _, d, p, ty, a, b, _ = ins
    a = X(E, st, fr, a); b = X(E, st, fr, b); w = ty.w
    if isinstance(a, int) and isinstance(b, int):
        x, y = tof(a, w), tof(b, w)
        un = x != x or y != y
        base = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}.get(p[1:])
        if p == "ord": r = not un
        elif p == "uno": r = un
        elif p[0] == "o": r = base and not un
        else: r = base or un
        fr.regs[d] = int(bool(r)); return
    F = st.F
    # decided exactly from the bits of the operand: comparisons of a value with itself or with a constant
    eb = 52 if w == 64 else 23
    if isinstance(a, int) and not isinstance(b, int):
        a, b = b, a
        p = p[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p[1:], p[1:]) if p not in ("ord", "uno") else p
    B = F.bits(a, w)
    lits = lambda x: simp(tuple(x))
    exps = F.eq(lits(B[eb:w - 1]), (1 << (w - 1 - eb)) - 1, w - 1 - eb)
    nan = AND(exps, F.eq(lits(B[:eb]), 0, eb) ^ 1)
    zero = F.eq(lits(B[:w - 1]), 0, w - 1)
    r = None
    if a == b:
        r = {"eq": nan ^ 1, "ne": 0 if p[0] == "o" else nan, "le": nan ^ 1, "ge": nan ^ 1, "lt": 0, "gt": 0}.get(p[1:], 0) if p not in ("ord", "uno") else nan ^ 1 if p == "ord" else nan
        if p[0] == "u" and p[1:] in ("eq", "le", "ge"): r = 1
        if p[0] == "u" and p[1:] in ("lt", "gt"): r = nan
    elif isinstance(b, int):
        y = tof(b, w)
        if y != y: r = 0 if p == "ord" or (p[0] == "o" and p != "ord") else 1
        elif p in ("ord", "uno"): r = nan ^ 1 if p == "ord" else nan
        else:
            eq = zero if y == 0 else F.eq(a, b, w)
            sg = B[w - 1]
            if y == 0: lt, gt = AND(sg, zero ^ 1), AND(sg ^ 1, zero ^ 1)
            else:
                mag = lits(B[:w - 1]); cm = b & ((1 << (w - 1)) - 1)
                small, large = F.lt(mag, cm, w - 1, False), F.lt(cm, mag, w - 1, False)     # |a| < |c|, |a| > |c|
                if y > 0: lt, gt = OR(sg, small), AND(sg ^ 1, large)
                else: lt, gt = AND(sg, large), OR(sg ^ 1, small)
            o = {"eq": eq, "ne": eq ^ 1, "lt": lt, "gt": gt, "le": OR(lt, eq), "ge": OR(gt, eq)}[p[1:]]
            r = AND(o, nan ^ 1) if p[0] == "o" else OR(o, nan)
    if r is not None:
        r = F.L(r)
        fr.regs[d] = r if r < 2 else (r,); return
    v = F.opaque("fcmp" + p, 1, a, b)
    fr.regs[d] = v

def i_load(E, st, fr, ins):
    _, d, ty, p, _ = ins
    p = V(E, fr, p)
    if ty.k == "struct" or ty.k == "arr":
        oid, off = E.locate(st, p, ty.size, False)
        fr.regs[d] = ("agg", ty, st.mem[oid].cells[off:off + ty.size]); return
    fr.regs[d] = E.load(st, p, ty.size, ty.w)

def i_store(E, st, fr, ins):
    _, _, ty, v, p, _ = ins
    p = V(E, fr, p); v = V(E, fr, v)
    if v.__class__ is tuple and v and v[0] in ("agg", "zero"):
        oid, off = E.locate(st, p, ty.size, True)
        st.w(oid).cells[off:off + ty.size] = v[2] if v[0] == "agg" else [0] * ty.size
        return
    E.store(st, p, v, ty.size, ty.w)

def i_gep(E, st, fr, ins):
    _, d, bt, base, idx, _ = ins
    fr.regs[d] = E.gep(st, bt, V(E, fr, base), [(t, o[1] if o[0] == "c" else X(E, st, fr, o)) for t, o in idx])

def jump(E, st, fr, lab):
    fr.prev, fr.blk = fr.blk, lab
    fr.code = code = fr.f.blocks[lab]
    n = 0
    vals = []
    while code[n][0] == "phi":
        ph = code[n]
        o = ph[3][fr.prev]
        vals.append((ph[1], V(E, fr, o))); n += 1
    for dn, v in vals: fr.regs[dn] = v
    fr.pc = n
    return 1

def i_jmp(E, st, fr, ins): return jump(E, st, fr, ins[2])

def i_br(E, st, fr, ins):
    c = V(E, fr, ins[2])
    if c.__class__ is not int:
        if c is UNDEF:
            E.event(st, Event("uninit", "branch on an undefined value", False))
            c = fresh_bits("undef", 1); fr.regs[ins[2][1]] = c
        l = st.F.L(c[0])
        if l > 1: raise NeedBit(l)
        c = l
    return jump(E, st, fr, ins[3] if c & 1 else ins[4])

def i_switch(E, st, fr, ins):
    _, _, ty, v, dflt, cases, _ = ins
    v = X(E, st, fr, v)
    if isinstance(v, int):
        for c, l in cases:
            if c == v: return jump(E, st, fr, l)
        return jump(E, st, fr, dflt)
    if isinstance(v, tuple) and len(v) != ty.w: v = v[:ty.w]
    for c, lab in cases:
        l = st.F.L(st.F.eq(v, c, ty.w))
        if l > 1: raise NeedBit(l)
        if l: return jump(E, st, fr, lab)
    return jump(E, st, fr, dflt)

def i_ret(E, st, fr, ins):
    v = V(E, fr, ins[3]) if ins[3] is not None else None
    for o in fr.objs: st.mem.pop(o, None)
    st.frames.pop()
    if not st.frames:
        st.user["ret"] = st.F.N(v) if isinstance(v, (tuple, LV)) else v
        return 1
    up = st.frames[-1]
    if fr.dest: up.regs[fr.dest] = v
    up.pc += 1
    return 1

def i_alloca(E, st, fr, ins):
    _, d, ty, nv, _ = ins
    n = 1
    if nv is not None:
        n = X(E, st, fr, nv)
        if not isinstance(n, int): raise Need(n, 64)
    oid = E.newid(fr.f.name + ":" + d)
    st.mem[oid] = Obj([None] * (ty.size * n), "local of " + fr.f.name)
    st.own.add(oid)
    fr.objs.append(oid)
    fr.regs[d] = Ptr(oid, 0)

def i_select(E, st, fr, ins):
    _, d, c, ty, a, b, _ = ins
    c = X(E, st, fr, c)
    if not isinstance(c, int):
        l = st.F.L(c[0])
        if l > 1:
            if ty.k == "int" and ty.w == 1:
                x, y = X(E, st, fr, a), X(E, st, fr, b)
                x = x if isinstance(x, int) else x[0]; y = y if isinstance(y, int) else y[0]
                r = OR(AND(l, x), AND(l ^ 1, y))
                fr.regs[d] = r if r < 2 else (r,); return
            raise NeedBit(l)
        c = l
    fr.regs[d] = V(E, fr, a if c & 1 else b)

def i_phi(E, st, fr, ins): raise Unsupported("phi in the middle of a block")

def i_extract(E, st, fr, ins):
    _, d, ty, a, idx, _ = ins
    v = V(E, fr, a)
    if isinstance(v, list):
        fr.regs[d] = v[idx[0]]; return
    if isinstance(v, tuple) and v[0] in ("agg", "zero"):
        t, off = ty, 0
        for i in idx:
            if t.k == "struct": t, o = t.els[i]; off += o
            else: t = t.el; off += i * t.size
        if v[0] == "zero": fr.regs[d] = 0 if t.k in ("int", "ptr", "fp") else ("zero", t); return
        tmp = E.obj(st, 0, "tmp", v[2])
        fr.regs[d] = E.load(st, Ptr(tmp, off), t.size, t.w)
        del st.mem[tmp]
        return
    raise Unsupported("extractvalue")

def i_insert(E, st, fr, ins):
    _, d, ty, a, t2, b, idx, _ = ins
    v = V(E, fr, a)
    cells = [None] * ty.size if v is UNDEF else [0] * ty.size if v[0] == "zero" else list(v[2])
    t, off = ty, 0
    for i in idx:
        if t.k == "struct": t, o = t.els[i]; off += o
        else: t = t.el; off += i * t.size
    E._put(cells, off, V(E, fr, b), t.size, t.w)
    fr.regs[d] = ("agg", ty, cells)

def i_fneg(E, st, fr, ins):
    _, d, ty, a, _ = ins
    a = X(E, st, fr, a)
    fr.regs[d] = st.F.logic("xor", a, 1 << (ty.w - 1), ty.w)

def i_freeze(E, st, fr, ins): fr.regs[ins[1]] = X(E, st, fr, ins[3])

def i_unreachable(E, st, fr, ins): raise Event("ub", "unreachable code is reached")

def i_call(E, st, fr, ins):
    _, d, rt, name, args, _ = ins
    if name[0] == "%":
        t = fr.regs[name]
        if isinstance(t, FnPtr): name = "@" + t.name
        elif t == 0: raise Event("oob", "call through a null function pointer")
        else: raise Unsupported("indirect call")
    n = name[1:].strip('"')
    h = E.over.get(n)
    if h is None and n.startswith("llvm."):
        h = E.over.get(n.rsplit(".i", 1)[0]) or E.over.get(re.sub(r"\.p0.*$|\.i\d+$|\.f\d+$", "", n))
        if h is None: raise Unsupported("intrinsic " + n)
        E.over[n] = h
    if h is not None:
        r = h(E, st, fr, [(t, V(E, fr, a) if a is not None else None) for t, a in args], ins)
        if d: fr.regs[d] = r
        return
    F = E.M.funcs.get(n)
    if F is None: raise Unsupported("call of unknown function " + n)
    av = []
    for t, a in args:
        v = V(E, fr, a)
        if v.__class__ is LV or (v.__class__ is tuple and v[0] not in ("agg", "zero")): v = st.F.N(v)
        av.append(v)
    E.push(st, F, av, d)
    return 1

DISPATCH = {"bin": i_bin, "cast": i_cast, "icmp": i_icmp, "fcmp": i_fcmp, "load": i_load, "store": i_store, "gep": i_gep, "jmp": i_jmp, "br": i_br,
            "switch": i_switch, "ret": i_ret, "alloca": i_alloca, "select": i_select, "phi": i_phi, "extract": i_extract, "insert": i_insert,
            "fneg": i_fneg, "freeze": i_freeze, "unreachable": i_unreachable, "call": i_call}

# ------------------------------------------------------------------ library
def conc(E, st, v, w, ptrs=()):
    if v is UNDEF: raise Event("uninit", "length is an undefined value")
    v = st.F.N(v)
    if not isinstance(v, int):
        lo, hi = st.F.rng(v, w, False)
        if hi - lo > E.max_split and len(ptrs):
            lim = min(len(st.mem[p.o].cells) if isinstance(p, Ptr) and p.o in st.mem else 0 for p in ptrs)
            l = st.F.L(st.F.lt(lim, v, w, False))
            if l > 1: raise NeedBit(l)
            if l: raise Event("oob", "memory operation of %d..%d bytes on an object of %d bytes" % (lo, hi, lim))
        raise Need(v, w)
    return v

def b_memcpy(E, st, fr, a, ins):
    n = conc(E, st, a[2][1], a[2][0].w, (a[0][1], a[1][1]))
    if n == 0: return a[0][1]
    do, doff = E.locate(st, a[0][1], n, True)
    so, soff = E.locate(st, a[1][1], n, False)
    seg = st.mem[so].cells[soff:soff + n]
    st.w(do).cells[doff:doff + n] = seg
    if E.on_store: E.on_store(st, do, doff, n)
    return a[0][1]

def b_memset(E, st, fr, a, ins):
    n = conc(E, st, a[2][1], a[2][0].w, (a[0][1],))
    if n == 0: return a[0][1]
    c = st.F.N(a[1][1])
    c = c & 255 if isinstance(c, int) else simp(st.F.bits(c, a[1][0].w)[:8])
    do, doff = E.locate(st, a[0][1], n, True)
    st.w(do).cells[doff:doff + n] = [c] * n
    if E.on_store: E.on_store(st, do, doff, n)
    return a[0][1]

def cell(E, st, p):
    return E.load(st, p, 1, 8)

def b_memcmp(E, st, fr, a, ins):
    n = conc(E, st, a[2][1], a[2][0].w, (a[0][1], a[1][1]))
    if n == 0: return 0
    p, q = a[0][1], a[1][1]
    E.locate(st, p, n, False); E.locate(st, q, n, False)
    for i in range(n):
        x = cell(E, st, Ptr(p.o, p.off + i)); y = cell(E, st, Ptr(q.o, q.off + i))
        l = st.F.L(st.F.eq(x, y, 8))
        if l > 1: raise NeedBit(l)
        if l: continue
        l = st.F.L(st.F.lt(x, y, 8, False))
        if l > 1: raise NeedBit(l)
        return 0xFFFFFFFF if l else 1
    return 0

def b_strlen(E, st, fr, a, ins):
    p = a[0][1]; i = 0
    while True:
        c = cell(E, st, E.gep(st, E.M.parse_type("i8"), p, [(E.M.parse_type("i64"), i)]))
        l = st.F.L(st.F.eq(c, 0, 8))
        if l > 1: raise NeedBit(l)
        if l: return i
        i += 1

def b_strcmp(E, st, fr, a, ins, lim=None):
    p, q = a[0][1], a[1][1]; i = 0
    while lim is None or i < lim:
        x = cell(E, st, Ptr(p.o, p.off + i)); y = cell(E, st, Ptr(q.o, q.off + i))
        l = st.F.L(st.F.eq(x, y, 8))
        if l > 1: raise NeedBit(l)
        if not l:
            l = st.F.L(st.F.lt(x, y, 8, False))
            if l > 1: raise NeedBit(l)
            return 0xFFFFFFFF if l else 1
        l = st.F.L(st.F.eq(x, 0, 8))
        if l > 1: raise NeedBit(l)
        if l: return 0
        i += 1
    return 0

def b_strncpy(E, st, fr, a, ins):
    d, p, n = a[0][1], a[1][1], conc(E, st, a[2][1], 64)
    i = 0; end = False
    while i < n:
        c = 0
        if not end:
            c = cell(E, st, Ptr(p.o, p.off + i))
            l = st.F.L(st.F.eq(c, 0, 8))
            if l > 1: raise NeedBit(l)
            if l: end = True
        E.store(st, Ptr(d.o, d.off + i), 0 if end else c, 1, 8)
        i += 1
    return d

def b_strncmp(E, st, fr, a, ins):
    return b_strcmp(E, st, fr, a, ins, conc(E, st, a[2][1], 64))

def b_abort(E, st, fr, a, ins):
    raise Event("abort", "assertion can fail")

def b_trap(E, st, fr, a, ins):
    k = a[0][1] if a else 0
    names = {0: "add", 3: "division", 12: "multiplication", 13: "negation", 20: "shift", 21: "subtraction"}
    raise Event("ub", "undefined arithmetic (%s)" % {0: "signed addition overflow", 3: "division", 12: "signed multiplication overflow", 13: "negation overflow", 20: "shift", 21: "signed subtraction overflow"}.get(k, "ubsan %s" % k))

def ovf(op, signed):
    def h(E, st, fr, a, ins):
        w = a[0][0].w
        x, y = a[0][1], a[1][1]
        if x is UNDEF or y is UNDEF:
            E.event(st, Event("uninit", "arithmetic on an undefined value", False))
            x = fresh_bits("undef", w) if x is UNDEF else x; y = fresh_bits("undef", w) if y is UNDEF else y
        F = st.F
        x, y = F.N(x), F.N(y)
        l1, h1 = F.rng(x, w, signed); l2, h2 = F.rng(y, w, signed)
        mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if op == "add": lo, hi = l1 + l2, h1 + h2; r = F.add(x, y, w)
        elif op == "sub": lo, hi = l1 - h2, h1 - l2; r = F.add(x, y, w, -1)
        else:
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]; lo, hi = min(ps), max(ps); r = F.mul(x, y, w)
        if lo < mn or hi > mx:
            # tighter: range of the exact linear result
            if op in ("add", "sub") and not (isinstance(x, int) and isinstance(y, int)):
                fx, fy = F._form(x, w, signed), F._form(y, w, signed)
                if fx and fy:
                    d = dict(fx[0]); s = 1 if op == "add" else -1
                    for k, c in fy[0].items(): d[k] = d.get(k, 0) + s * c
                    a_, b_ = F.trng({k: c for k, c in d.items() if c})
                    kk = fx[1] + s * fy[1]
                    lo, hi = max(lo, a_ + kk), min(hi, b_ + kk)
        if mn <= lo and hi <= mx: o = 0
        elif hi < mn or lo > mx: o = 1
        else:
            o = F.L(ovlit(F, op, x, y, w, signed))
        return [r, o if o < 2 else (o,)]
    return h

def ovlit(F, op, x, y, w, signed):
    """literal saying that the operation overflows, phrased as a comparison so that branching on it refines the operands"""
    M = (1 << w) - 1
    if not signed:
        if op == "add": return F.lt(F.logic("xor", y, M, w), x, w, False)       # x > ~y
        if op == "sub": return F.lt(x, y, w, False)
    else:
        MX = (1 << (w - 1)) - 1
        for a, b in ((x, y), (y, x)):
            if op == "add" and isinstance(b, int):
                s = sgn(b, w)
                return F.lt((MX - s) & M, a, w, True) if s >= 0 else F.lt(a, (-(MX + 1) - s) & M, w, True)
        if op == "sub" and isinstance(y, int):
            s = sgn(y, w)
            return F.lt(a if False else x, (-(MX + 1) + s) & M, w, True) if s >= 0 else F.lt((MX + s) & M, x, w, True)
        if op == "sub" and isinstance(x, int):
            s = sgn(x, w)     # s - y overflows
            if s >= 0: return F.lt(y, (s - MX) & M, w, True)
            return F.lt((s + MX + 1) & M, y, w, True)
    if op == "mul":
        for a, b in ((x, y), (y, x)):
            if isinstance(b, int) and b and (not signed or sgn(b, w) > 0):
                bb = sgn(b, w) if signed else b
                if not signed: return F.lt(M // bb, a, w, False)
                MX = (1 << (w - 1)) - 1
                l, h = F.rng(a, w, True)
                if l >= 0 or l * bb >= -(MX + 1): return F.lt(MX // bb, a, w, True)
    return F.opaque("ovf" + op + ("s" if signed else "u"), 1, x, y)[0]

def b_abs(E, st, fr, a, ins):
    w = a[0][0].w
    x = st.F.N(a[0][1])
    l = st.F.L(st.F.lt(x, 0, w, True))
    if l > 1: raise NeedBit(l)
    return st.F.add(0, x, w, -1) if l else x

def b_ignore(E, st, fr, a, ins): return 0

def b_fabs(E, st, fr, a, ins):
    w = a[0][0].w
    v = st.F.N(a[0][1])
    if isinstance(v, int): return v & ((1 << (w - 1)) - 1)
    return simp(st.F.bits(v, w)[:w - 1] + (0,))

def opaque_fp(name):
    def h(E, st, fr, a, ins):
        vs = [st.F.N(v) for _, v in a]
        import math
        if all(isinstance(v, int) for v in vs):
            try:
                xs = [tof(v, t.w) if t.k == "fp" else sgn(v, t.w) for (t, _), v in zip(a, vs)]
                fn = {"floor": math.floor, "log10": math.log10, "pow": math.pow, "ldexp": math.ldexp, "ceil": math.ceil, "log": math.log, "exp2": lambda x: 2.0 ** x}[name]
                return fromf(float(fn(*xs)), ins[2].w)
            except (ValueError, OverflowError, KeyError): pass
        return st.F.opaque(name, ins[2].w, *vs)
    return h

def b_toupper(lo, hi, d):
    def h(E, st, fr, a, ins):
        x = st.F.N(a[0][1])
        for c, want in ((st.F.lt(x, lo, 32, True), 0), (st.F.lt(hi, x, 32, True), 0)):
            c = st.F.L(c)
            if c > 1: raise NeedBit(c)
            if c: return x
        return st.F.add(x, d & 0xFFFFFFFF, 32)
    return h

def b_isclass(ranges):
    def h(E, st, fr, a, ins):
        x = st.F.N(a[0][1])
        l, hh = st.F.rng(x, 32, True)
        if l < -1 or hh > 255:
            for c in (st.F.lt(x, 0xFFFFFFFF, 32, True), st.F.lt(255, x, 32, True)):
                c = st.F.L(c)
                if c > 1: raise NeedBit(c)
            l, hh = st.F.rng(x, 32, True)
        if l < -1 or hh > 255: raise Event("ub", "character classification of a value outside 0..255 (%d..%d)" % (l, hh))
        for lo, hi in ranges:
            c = st.F.L(st.F.lt(x, lo, 32, True))
            if c > 1: raise NeedBit(c)
            if c: continue
            c = st.F.L(st.F.lt(hi, x, 32, True))
            if c > 1: raise NeedBit(c)
            if not c: return 1
        return 0
    return h

BUILTINS = {
    "memcpy": b_memcpy, "memmove": b_memcpy, "memset": b_memset, "memcmp": b_memcmp, "strlen": b_strlen, "strcmp": b_strcmp, "strncpy": b_strncpy, "strncmp": b_strncmp,
    "llvm.memcpy": b_memcpy, "llvm.memmove": b_memcpy, "llvm.memset": b_memset, "llvm.memcpy.inline": b_memcpy,
    "__assert_fail": b_abort, "abort": b_abort, "llvm.ubsantrap": b_trap, "llvm.trap": b_trap,
    "llvm.abs": b_abs, "abs": b_abs, "labs": b_abs, "llabs": b_abs, "llvm.fabs": b_fabs, "fabs": b_fabs, "fabsf": b_fabs,
    "toupper": b_toupper(97, 122, -32), "tolower": b_toupper(65, 90, 32),
    "isdigit": b_isclass([(48, 57)]), "isspace": b_isclass([(9, 13), (32, 32)]), "isalpha": b_isclass([(65, 90), (97, 122)]), "isalnum": b_isclass([(48, 57), (65, 90), (97, 122)]),
    "llvm.stacksave": b_ignore, "llvm.stackrestore": b_ignore, "llvm.va_start": b_ignore, "llvm.va_end": b_ignore,
}
for _n in ("floor", "log10", "pow", "ldexp", "ceil", "log", "exp2", "sqrt"):
    BUILTINS[_n] = opaque_fp(_n); BUILTINS["llvm." + _n] = opaque_fp(_n)
for _o in ("add", "sub", "mul"):
    BUILTINS["llvm.s%s.with.overflow" % _o] = ovf(_o, True)
    BUILTINS["llvm.u%s.with.overflow" % _o] = ovf(_o, False)
