"""Wire model of code templates: what the encode template puts on the wire, item by item, is given to the decode template.

The statements of a rendered C template are interpreted over an abstract machine.  The wire is a list of items: single bits
whose value is known (counts, indexes, presence bits, patterns, block headers) and opaque items (a nested step over a range
of elements, a number of unknown value with its bounds, a run of bits of an array, a contained value).  Scalars are integers
(counts and discriminants are partitioned by the scenarios) or symbols `val(place)' standing for any value held at a place
of the encoded object.  Operations of the runtime are modelled by their name: an operation <op> writes the item (op, bounds,
value), its decoder reads back an item of the same class and bounds and stores the value.  Loops over elements are
summarised into ranges, the limit being computed from the loop condition."""
import re
from ctempl import c_ast
import ctempl

class Und(Exception): pass         # the model cannot follow the text
class Bad(Exception): pass         # the text contradicts the model: not inverse

def nbits(r):
    n = 0
    while r >> n: n += 1
    return n

class Stream:
    def __init__(s, start=0, buf=None): s.items, s.pos, s.start, s.buf, s.count = [], 0, start, buf, None
    def bits(s, k=None): return s.start + sum(i[3] for i in s.items[:s.pos if k is None else k])
    def put(s, cls, extra, val, n):
        if s.pos < len(s.items):
            o = s.items[s.pos]
            if (o[0], o[1], o[3]) != (cls, extra, n): raise Bad("overwrites %s%s with %s%s" % (o[0], o[1], cls, extra))
            s.items[s.pos] = (cls, extra, val, n)
        else: s.items.append((cls, extra, val, n))
        s.pos += 1
    def putbits(s, v, n):
        for k in range(n - 1, -1, -1): s.put("b", (), v >> k & 1, 1)
    def get(s, cls, extra):
        if s.pos >= len(s.items): raise Bad("reads %s%s behind the last item written" % (cls, extra))
        o = s.items[s.pos]
        if o[0] != cls: raise Bad("reads %s%s where %s%s was written" % (cls, extra, o[0], o[1]))
        if o[1] != extra: raise Bad("reads %s with %s, written with %s" % (cls, extra, o[1]))
        s.pos += 1
        return o[2]
    def getbits(s, n):
        v = 0
        for _ in range(n): v = v << 1 | s.get("b", ())
        return v
    def seekbits(s, b):
        acc = s.start
        for k in range(len(s.items) + 1):
            if acc == b: s.pos = k; return
            if k < len(s.items): acc += s.items[k][3]
        raise Bad("moves to bit %d, which is not between two items" % b)

class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cont(Exception): pass

UNKNOWN_OK = {"(void)"}
class M:
    def __init__(s, role, mem, main, scen):
        s.role, s.mem, s.st, s.scen = role, dict(mem), {"main": main}, scen
        s.mem.setdefault("pBitStrm", ("stream", "main"))
        s.mem["ret"] = 1; s.mem["*pErrCode"] = 0
        s.read, s.undef, s.n, s.patched = [], set(), 0, {}
    # ------------------------------------------------------------------ places
    def key(s, e):
        if isinstance(e, c_ast.ID): return e.name
        if isinstance(e, c_ast.Cast): return s.key(e.expr)
        if isinstance(e, c_ast.UnaryOp) and e.op == "*":
            k = s.key(e.expr)
            if k is None: return None
            return "*" + k if k in ("pErrCode", "pBitStrm") else k
        if isinstance(e, c_ast.UnaryOp) and e.op == "&": return s.key(e.expr)
        if isinstance(e, c_ast.StructRef):
            k = s.key(e.name); return None if k is None else k + e.type + e.field.name
        if isinstance(e, c_ast.ArrayRef):
            k = s.key(e.name); i = s.ev(e.subscript)
            if k is None: return None
            return "%s[%s]" % (k, i if isinstance(i, int) else repr(i))
        return None
    def stream_of(s, e):
        """stream a place expression like pBitStrm or bitStrm or &bitStrm denotes, or None"""
        k = s.key(e)
        v = s.mem.get(k)
        if isinstance(v, tuple) and v[0] == "stream": return s.st[v[1]]
        if k in s.st: return s.st[k]
        return None
    def arr(s, k):
        return k if k.endswith("]") else k + "[0]"
    def content(s, e, n):
        """what n octets/bits from an array expression stand for: known octets, a contained stream, or a symbol"""
        if isinstance(e, c_ast.CompoundLiteral): return ("oct", tuple(s.ev(x) for x in e.init.exprs))
        k = s.key(e)
        if k is None: raise Und("array expression")
        v = s.mem.get(k)
        if isinstance(v, list): return ("oct", tuple(v))
        for st in s.st.values():
            if st.buf == k: return ("contained", tuple(st.items))
        if isinstance(v, tuple) and v[0] in ("oct", "contained"): return v
        if re.match(r"p\b", k): s.read.append((s.arr(k), n)); return ("val", s.arr(k))
        raise Und("content of %s" % k)
    def bitsof(s, c, n):
        o = c[1]
        if n > 8 * len(o): raise Bad("%d bits of a pattern of %d octets" % (n, len(o)))
        return [o[k // 8] >> (7 - k % 8) & 1 for k in range(n)]
    # ------------------------------------------------------------------ expressions
    def ev(s, e):
        s.n += 1
        if s.n > 400000: raise Und("too long")
        if isinstance(e, c_ast.Constant):
            if e.type in ("int", "long int", "unsigned int", "long long int", "unsigned long int"): return int(e.value.rstrip("uUlL"), 0)
            if e.type == "char": return ord(e.value[1:-1].encode().decode("unicode_escape"))
            if e.type == "string": return ("str", e.value[1:-1])
            raise Und("constant")
        if isinstance(e, c_ast.Cast): return s.ev(e.expr)
        if isinstance(e, c_ast.ID):
            if e.name in ("TRUE", "true"): return 1
            if e.name in ("FALSE", "false"): return 0
            if e.name in s.undef: raise Und("%s has no value" % e.name)
            if e.name in s.mem: return s.mem[e.name]
            if e.name == "p":
                if s.role == "enc": s.read.append(("p", 1)); return ("val", "p")
                raise Bad("uses the decoded value before it is known")
            return ("id", e.name)
        if isinstance(e, (c_ast.StructRef, c_ast.ArrayRef)) or isinstance(e, c_ast.UnaryOp) and e.op == "*":
            if isinstance(e, c_ast.StructRef):
                st = s.stream_of(e.name)
                if st is not None:
                    f = e.field.name
                    if f == "currentByte": return st.bits() // 8
                    if f == "currentBit": return st.bits() % 8
                    if f == "count": return st.count if st.count is not None else (st.bits(len(st.items)) + 7) // 8 + 2
                    raise Und("stream field " + f)
            if isinstance(e, c_ast.UnaryOp):
                st = s.stream_of(e.expr)
                if st is not None: return ("pos", st.pos, st.bits())
            if isinstance(e, c_ast.ArrayRef):
                b = s.mem.get(s.key(e.name)); i = s.ev(e.subscript)
                if isinstance(b, list):
                    if not isinstance(i, int): raise Und("index")
                    if not 0 <= i < len(b): raise Bad("index %d of a table of %d" % (i, len(b)))
                    return b[i]
            k = s.key(e)
            if k is None: raise Und("place")
            if k in s.mem: return s.mem[k]
            if s.role == "enc" and re.match(r"p\b", k): s.read.append((k, 1)); return ("val", k)
            if s.role == "dec" and re.match(r"p\b", k): raise Bad("uses %s before it is decoded" % k)
            return ("id", k)
        if isinstance(e, c_ast.UnaryOp):
            if e.op == "!":
                v = s.truth(s.ev(e.expr)); return 1 - v
            if e.op == "-": return s.num("-", 0, s.ev(e.expr))
            if e.op == "sizeof": return 100000
            if e.op in ("++", "p++", "--", "p--"):
                k = s.key(e.expr); o = s.ev(e.expr); v = s.num(e.op[-1], o, 1); s.store(e.expr, v); return o if e.op[0] == "p" else v
            if e.op == "&":
                st = s.stream_of(e.expr)
                if st is not None: return ("stream", next(n for n, x in s.st.items() if x is st))
                return ("ref", s.key(e.expr))
            if e.op == "+": return s.ev(e.expr)
            raise Und("operator " + e.op)
        if isinstance(e, c_ast.BinaryOp):
            if e.op == "&&": return s.truth(s.ev(e.right)) if s.truth(s.ev(e.left)) else 0
            if e.op == "||": return 1 if s.truth(s.ev(e.left)) else s.truth(s.ev(e.right))
            a, b = s.ev(e.left), s.ev(e.right)
            if e.op in ("==", "!="):
                q = s.same(a, b); return int(q == (e.op == "=="))
            return s.num(e.op, a, b)
        if isinstance(e, c_ast.TernaryOp): return s.ev(e.iftrue if s.truth(s.ev(e.cond)) else e.iffalse)
        if isinstance(e, c_ast.Assignment):
            v = s.ev(e.rvalue)
            if e.op != "=": v = s.num(e.op[:-1], s.ev(e.lvalue), v)
            s.store(e.lvalue, v); return v
        if isinstance(e, c_ast.FuncCall): return s.call(e)
        if isinstance(e, c_ast.ExprList):
            v = None
            for x in e.exprs: v = s.ev(x)
            return v
        if isinstance(e, c_ast.CompoundLiteral): return [s.ev(x) for x in e.init.exprs]
        raise Und(type(e).__name__)
    def same(s, a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        if a == b: return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] in ("id", "str"): return False
        raise Und("comparison of %s and %s" % (a, b))
    def truth(s, v):
        if isinstance(v, int): return int(v != 0)
        if v[:1] == ("id",) and v[1] in s.scen.get("true", ()): return 1
        if v[:1] == ("id",) and v[1] in s.scen.get("false", ()): return 0
        raise Und("condition %s" % (v,))
    def num(s, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if op == "/": return int(a / b) if b else s.bad("division by zero")
            if op == "%": return a - b * int(a / b) if b else s.bad("division by zero")
            if op in ("+", "-", "*", "&", "|", "^", "<<", ">>"): return eval("a %s b" % op)
            if op in ("<", ">", "<=", ">="): return int(eval("a %s b" % op))
        if op in ("<", ">", "<=", ">="): raise Und("comparison of %s and %s" % (a, b))
        return ("op", op, a, b)
    def bad(s, m): raise Bad(m)
    # ------------------------------------------------------------------ stores
    def store(s, lv, v):
        if isinstance(lv, c_ast.StructRef):
            st = s.stream_of(lv.name)
            if st is not None:
                f = lv.field.name
                if f == "count": st.count = v; return
                if f == "currentByte": s.scen["_byte"] = v; return
                if f == "currentBit": st.seekbits(s.scen.pop("_byte", st.bits() // 8) * 8 + v); return
                raise Und("stream field")
        if isinstance(lv, c_ast.UnaryOp) and lv.op == "*":
            st = s.stream_of(lv.expr)
            if st is not None:
                if isinstance(v, tuple) and v[0] == "pos": st.pos = v[1]; return
                raise Und("stream copy")
        k = s.key(lv)
        if k is None: raise Und("store")
        s.undef.discard(k); s.mem[k] = v
        if s.role == "enc" and re.match(r"p\b", k) and k not in s.scen.get("tmp", ()): raise Bad("the encoder stores %s" % k)
    def out(s, a, v):
        """an output argument"""
        k = s.key(a)
        if k is None: raise Und("output argument")
        s.undef.discard(k); s.mem[k] = v
    # ------------------------------------------------------------------ calls
    def call(s, e):
        f = e.name.name if isinstance(e.name, c_ast.ID) else None
        A = e.args.exprs if e.args else []
        if f is None: raise Und("call")
        if re.match(r"STEP8?_", f):
            st = s.stream_of(A[0]); i = [s.ev(x) for x in A[1:]]
            if s.role == "enc": st.put("step", (f,) + tuple(i), None, 8 if f[4] == "8" else 3)
            else: st.get("step", (f,) + tuple(i))
            return 1
        if f in ("strlen",):
            k = s.key(A[0]); return s.mem["strlen:" + k] if "strlen:" + k in s.mem else ("op", "strlen", k)
        if f == "strcmp":
            return int(not s.same(s.ev(A[0]), s.ev(A[1])))
        if f == "strcpy": s.store(A[0], s.ev(A[1])); return 0
        if f == "memcpy": raise Und("memcpy")
        if f == "GetCharIndex":
            v = s.ev(A[0]); t = s.mem.get(s.key(A[1])); n = s.ev(A[2])
            if not (isinstance(v, int) and isinstance(t, list) and isinstance(n, int)): raise Und("GetCharIndex")
            if n > len(t): raise Bad("looks at %d of %d characters of the alphabet" % (n, len(t)))
            return t.index(v) if v in t[:n] else 0
        if f in ("binarySearch", "linearSearch"):
            t = s.mem.get(s.key(A[0])); v = s.ev(A[2]); n = s.ev(A[1])
            if not isinstance(t, list): raise Und("table")
            if isinstance(n, tuple): n = len(t)
            return t.index(v) if v in t[:n] else -1
        m = re.match(r"(.*)_(encode|decode)$", f)
        if m and m.group(1) == "soMF":
            v = s.ev(A[0])
            if m.group(2) == "decode": return v[1] if isinstance(v, tuple) and v[0] == "mf" else ("unmapped", v)
            return ("mf", v)
        if f == "BitStream_Init":
            k = s.key(A[0]); st = s.st[k] = Stream(0, s.key(A[1]))
            v = s.mem.get(st.buf)
            if isinstance(v, tuple) and v[0] == "contained": st.items = list(v[1])
            return 0
        if f == "Acn_BitStream_GetPos": st = s.stream_of(A[0]); return ("pos", st.pos, st.bits())
        if f == "Acn_BitStream_SetPos":
            st = s.stream_of(A[0]); v = s.ev(A[1])
            if not (isinstance(v, tuple) and v[0] == "pos"): raise Bad("moves to a place that was not saved")
            st.pos = v[1]; return 0
        if f in ("Acn_BitStream_DistanceInBytes", "Acn_BitStream_DistanceInBits"):
            a, b = s.ev(A[0]), s.ev(A[1])
            for x in (a, b):
                if not (isinstance(x, tuple) and x[0] == "pos"): raise Bad("measures from a place that was not saved")
            d = b[2] - a[2]
            return (d + 7) // 8 if f.endswith("Bytes") else d
        if f in s.scen.get("patch", ()):
            v = s.ev(A[0]); k = s.key(next(x for x in A[1:] if s.key(x) in s.scen["dets"]))
            s.patched[k] = v; return 1
        st = s.stream_of(A[0]) if A else None
        # contained types: (value, stream, pErrCode, ...)
        if st is None and len(A) >= 2 and s.stream_of(A[1]) is not None:
            st = s.stream_of(A[1]); k = s.key(A[0])
            g = re.sub(r"(?i)_?(en|de)code$", "", f)
            extra = tuple(repr(s.ev(x)) for x in A[3:] if not (isinstance(x, c_ast.ID) and x.name in ("TRUE", "FALSE")))
            if s.role == "enc":
                if k: s.read.append((k, 1))
                st.put("inner", (g,) + extra, ("val", k), s.scen.get("innerbits", 24))
            else: s.out(A[0], st.get("inner", (g,) + extra))
            return 1
        if st is None:
            if f in s.scen.get("noop", ()): return 1
            raise Und("call of %s" % f)
        return s.op(f, st, A)
    def decoding(s):
        if s.role == "enc": raise Bad("the encode template reads")
    def encoding(s):
        if s.role == "dec": raise Bad("the decode template writes")
    def cwn_put(s, cls, st, v, lo, hi):
        s.encoding()
        if isinstance(v, int) and isinstance(lo, int) and isinstance(hi, int):
            if not lo <= v <= hi: raise Bad("encodes %d as a number from %d to %d" % (v, lo, hi))
            st.putbits(v - lo, nbits(hi - lo))
        else: st.put(cls, (lo, hi), v, nbits(hi - lo) if isinstance(lo, int) and isinstance(hi, int) else 8)
    def cwn_get(s, cls, st, lo, hi):
        s.decoding()
        if st.pos < len(st.items) and st.items[st.pos][0] == "b" and isinstance(lo, int) and isinstance(hi, int):
            v = lo + st.getbits(nbits(hi - lo))
            if v > hi: raise Bad("reads %d as a number from %d to %d" % (v, lo, hi))
            return v
        if isinstance(lo, int) and lo == hi: return lo
        return st.get(cls, (lo, hi))
    def op(s, f, st, A):
        ev = s.ev
        if f in ("BitStream_AppendBitOne", "BitStream_AppendBitZero"): s.encoding(); st.put("b", (), int(f.endswith("One")), 1); return 1
        if f == "BitStream_AppendBit":
            s.encoding(); v = ev(A[1])
            if isinstance(v, int): st.put("b", (), int(v != 0), 1)
            else: st.put("bit", (), v, 1)
            return 1
        if f in ("BitStream_ReadBit",):
            s.decoding(); nx = st.items[st.pos][0] if st.pos < len(st.items) else None
            s.out(A[1], st.get("b" if nx == "b" else "bit", ())); return 1
        if f in ("BitStream_AppendByte", "BitStream_AppendByte0"):
            s.encoding(); st.put("byte", tuple(ev(x) for x in A[2:]), ev(A[1]), 8); return 1
        if f == "BitStream_ReadByte": s.decoding(); s.out(A[1], st.get("byte", ())); return 1
        if f in ("BitStream_AppendBits", "BitStream_EncodeOctetString_no_length"):
            s.encoding(); n = ev(A[2]); oc = not f.endswith("Bits")
            if not isinstance(n, int): raise Und("count")
            if n == 0: return 1
            c = s.content(A[1], n)
            if c[0] == "oct":
                for b in s.bitsof(c, n * (8 if oc else 1)): st.put("b", (), b, 1)
            else: st.put("octets" if oc else "bits", (n,), c, n * (8 if oc else 1))
            return 1
        if f in ("BitStream_ReadBits", "BitStream_DecodeOctetString_no_length"):
            s.decoding(); n = ev(A[2]); oc = not f.endswith("Bits")
            if not isinstance(n, int): raise Und("count")
            if n == 0: return 1
            v = st.get("octets" if oc else "bits", (n,)); s.outarr(A[1], v); return 1
        if f in ("BitStream_EncodeOctetString", "BitStream_EncodeBitString"):
            s.encoding(); n = ev(A[2]); st.put(f[-11:], (ev(A[3]), ev(A[4])), (s.content(A[1], n), n), 40); return 1
        if f in ("BitStream_DecodeOctetString", "BitStream_DecodeBitString"):
            s.decoding(); v = st.get(f[-11:], (ev(A[3]), ev(A[4]))); s.outarr(A[1], v[0]); s.out(A[2], v[1]); return 1
        if f == "BitStream_ReadBitPattern":
            s.decoding(); n = ev(A[2]); c = s.content(A[1], n)
            got = [st.get("b", ()) for _ in range(n)]
            s.out(A[3], int(got == s.bitsof(c, n))); return 1
        if f == "BitStream_ReadBitPattern_ignore_value": s.decoding(); st.getbits(ev(A[1])); return 1
        if f == "BitStream_DecodeTrueFalseBoolean":
            s.decoding(); n = ev(A[3]); t, z = s.content(A[1], n), s.content(A[2], n); got = [st.get("b", ()) for _ in range(n)]
            if got == s.bitsof(t, n): s.out(A[4], 1)
            elif got == s.bitsof(z, n): s.out(A[4], 0)
            else: return 0
            return 1
        if f == "BitStream_checkBitPatternPresent":
            s.decoding(); n = ev(A[2]); c = s.bitsof(s.content(A[1], n), n); p0 = st.pos
            try: got = [st.get("b", ()) for _ in range(n)]
            except Bad: got = None
            if got == c: return 2
            st.pos = p0; return 1
        if f == "BitStream_ReadBits_nullterminated":
            s.decoding(); n = ev(A[2]); c = s.bitsof(s.content(A[1], n), n); mx = ev(A[4])
            cnt = 0
            if st.pos < len(st.items) and st.items[st.pos][0] == "bits":
                o = st.items[st.pos]; cnt = o[1][0]; st.pos += 1; s.outarr(A[3], o[2])
            if cnt > mx: return 0
            if [st.get("b", ()) for _ in range(n)] != c: return 0
            s.out(A[5], cnt); return 1
        m = re.match(r"BitStream_(Encode|Decode)(Constraint\w*WholeNumber)$", f)
        if m:
            lo, hi = ev(A[2]), ev(A[3])
            if m.group(1) == "Encode": s.cwn_put(m.group(2), st, ev(A[1]), lo, hi)
            else: s.out(A[1], s.cwn_get(m.group(2), st, lo, hi))
            return 1
        if re.match(r"Acn_AlignTo", f):
            if len(A) != 2: raise Und("alignment")
            w = {"Acn_AlignToNextByte": 8, "Acn_AlignToNextWord": 16, "Acn_AlignToNextDWord": 32}.get(f, f)
            enc = ev(A[1])
            if s.role == "enc":
                if not enc: raise Bad("aligns for decoding while encoding")
                st.put("align", (w,), None, 8)
            else:
                if enc: raise Bad("aligns for encoding while decoding")
                st.get("align", (w,))
            return 1
        m = re.match(r"(?:BitStream_(Encode|Decode)|Acn_(Enc|Dec)_)(\w+)$", f) or re.match(r"()()(\w+_(?:uper_)?(?:encode|decode))$", f)
        if not m: raise Und("call of %s" % f)
        cls = m.group(3); d = m.group(1) or m.group(2) or ("Enc" if cls.endswith("encode") else "Dec")
        if not (m.group(1) or m.group(2)): cls = cls[:-6]
        vi = len(A) - 1 if "String" in cls else 1
        if len(A) <= vi: raise Und("arguments of %s" % f)
        def ex(x):
            v = ev(x); return tuple(v) if isinstance(v, list) else ("t",) + tuple(s.mem[x.name]) if isinstance(x, c_ast.ID) and isinstance(s.mem.get(x.name), list) else v
        extra = [ex(x) for k, x in enumerate(A) if k not in (0, vi)]
        if d[:3] == "Enc":
            s.encoding(); k = s.key(A[vi])
            v = ev(A[vi]) if vi == 1 else ("val", k)
            if vi > 1: s.read.append((k, 1))
            st.put(cls, tuple(extra), v, 16)
        else:
            s.decoding()
            extra = tuple(v for (k, x), v in zip([(k, x) for k, x in enumerate(A) if k not in (0, vi)], extra) if not (isinstance(x, c_ast.ID) and x.name in s.scen.get("ext", ())))
            s.out(A[vi], st.get(cls, extra))
        return 1
    def outarr(s, a, v):
        k = s.key(a)
        if k is None: raise Und("array argument")
        if v[0] == "contained":
            s.mem[k] = v
            for st in s.st.values():
                if st.buf == k: st.items = list(v[1]); st.pos = 0
        else: s.mem[s.arr(k)] = v
    # ------------------------------------------------------------------ statements
    def run(s, x):
        if x is None: return
        s.n += 1
        if isinstance(x, c_ast.Compound):
            for y in x.block_items or []: s.run(y)
        elif isinstance(x, c_ast.DeclList):
            for y in x.decls: s.run(y)
        elif isinstance(x, c_ast.Decl):
            if isinstance(x.init, c_ast.InitList): s.mem[x.name] = [s.ev(y) for y in x.init.exprs]; s.undef.discard(x.name)
            elif x.init is not None: s.mem[x.name] = s.ev(x.init); s.undef.discard(x.name)
            else:
                s.mem.pop(x.name, None)
                if not isinstance(x.type, c_ast.ArrayDecl): s.undef.add(x.name)
        elif isinstance(x, c_ast.If): s.run(x.iftrue if s.truth(s.ev(x.cond)) else x.iffalse)
        elif isinstance(x, c_ast.For): s.loop(x)
        elif isinstance(x, (c_ast.While, c_ast.DoWhile)):
            k = 0
            if isinstance(x, c_ast.DoWhile): s.body(x.stmt)
            while s.truth(s.ev(x.cond)):
                k += 1
                if k > 300: raise Und("loop")
                try: s.body(x.stmt)
                except Brk: break
        elif isinstance(x, c_ast.Switch):
            v = s.ev(x.cond); items = x.stmt.block_items or []
            hit = None
            for k, c in enumerate(items):
                if isinstance(c, c_ast.Case) and hit is None:
                    w = s.ev(c.expr)
                    if s.same(v, w): hit = k
            if hit is None: hit = next((k for k, c in enumerate(items) if isinstance(c, c_ast.Default)), None)
            if hit is None: return
            try:
                for c in items[hit:]:
                    for y in (c.stmts or []) if isinstance(c, (c_ast.Case, c_ast.Default)) else [c]: s.run(y)
            except Brk: pass
        elif isinstance(x, c_ast.Return): raise Ret(s.ev(x.expr) if x.expr is not None else None)
        elif isinstance(x, c_ast.Break): raise Brk()
        elif isinstance(x, c_ast.Continue): raise Cont()
        elif isinstance(x, c_ast.EmptyStatement): pass
        elif isinstance(x, c_ast.Cast): 
            if isinstance(x.expr, c_ast.FuncCall): s.ev(x.expr)
        else: s.ev(x)
    def body(s, b):
        try: s.run(b)
        except Cont: pass
    def loop(s, x):
        if x.init is not None:
            if isinstance(x.init, c_ast.DeclList): s.run(x.init)
            else: s.ev(x.init)
        # an element loop: the body is one nested step, the index goes up by one
        b = x.stmt.block_items if isinstance(x.stmt, c_ast.Compound) else [x.stmt]
        b = [y for y in b or [] if not isinstance(y, c_ast.EmptyStatement)]
        idx = s.key(x.next.expr) if isinstance(x.next, c_ast.UnaryOp) and x.next.op in ("p++", "++") else None
        call = next((y.rvalue for y in b if isinstance(y, c_ast.Assignment) and isinstance(y.rvalue, c_ast.FuncCall) and getattr(y.rvalue.name, "name", "").startswith("STEP_")), None)
        if idx and call is not None and len(b) <= 2:
            i0 = s.mem[idx]
            def ok(i): s.mem[idx] = i; return s.truth(s.ev(x.cond))
            if not isinstance(i0, int): raise Und("loop start")
            if not ok(i0): s.mem[idx] = i0; return
            lo, step = i0, 1
            while ok(lo + step):
                lo += step; step *= 2
                if step > 1 << 40: raise Bad("an element loop that does not end")
            hi = lo + step              # ok(lo), not ok(hi)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                lo, hi = (mid, hi) if ok(mid) else (lo, mid)
            if hi - i0 > 64:
                s.mem[idx] = hi; st = s.stream_of(call.args.exprs[0])
                f = call.name.name
                args = (f, i0, hi) + tuple(s.ev(a) for a in call.args.exprs[1:] if s.key(a) != idx)
                if s.role == "enc": st.put("steps", args, None, 3 * (hi - i0))
                else: st.get("steps", args)
                s.mem["ret"] = 1; s.mem["*pErrCode"] = 0
                return
            s.mem[idx] = i0
        k = 0
        while x.cond is None or s.truth(s.ev(x.cond)):
            k += 1
            if k > 300: raise Und("loop")
            try: s.body(x.stmt)
            except Brk: break
            if x.next is not None: s.ev(x.next)

def parse(text):
    body = ctempl.preproc(ctempl.strip_comments(text))
    types = set(ctempl.TYPES) | {"TYPE_T"}
    src = "".join("typedef int %s;\n" % x for x in sorted(types)) + "void F(void) { %s }" % body
    try: ast = ctempl.c_parser.CParser().parse(src)
    except Exception as e: raise Und("does not parse: %s" % str(e)[:80])
    return next(x for x in ast.ext if isinstance(x, c_ast.FuncDef)).body

def roundtrip(enc_text, dec_text, mem=None, dmem=None, scen=None, want=()):
    """None when the decode text undoes the encode text, a message when not; raises Und when it cannot be followed"""
    scen = dict(scen or {})
    w = Stream(5)
    e = M("enc", mem or {}, w, scen)
    def go(m, t):
        try: m.run(parse(t))
        except Ret as r: m.mem["ret"] = r.v
    try: go(e, enc_text)
    except Bad as x: return "encoding: %s" % x
    if e.mem["ret"] != 1: return "encoding a valid value ends with result %s" % (e.mem["ret"],)
    if e.mem["*pErrCode"] not in (0,) and not scen.get("errok"): return "encoding a valid value leaves the error code %s" % (e.mem["*pErrCode"],)
    if e.mem["pBitStrm"] != ("stream", "main"): return "encoding leaves another stream in place"
    for k in scen.get("inits", ()):
        if e.mem.get(k + "_is_initialized") != 1: return "encoding does not mark %s as computed" % k
    if "total" in scen:
        n, bits = scen["total"]; at = 0
        for c, x, v, _ in w.items:
            if c == "step": lo, hi = x[1], x[1] + 1
            elif c == "steps": lo, hi = x[1], x[2]
            elif c == "bits":
                m = re.search(r"\[(\d+)\]$", v[1]) if v[0] == "val" else None
                if not m: raise Und("place of the bits")
                lo = 8 * int(m.group(1)); hi = lo + x[0]
            else: continue
            if lo != at: return "encoding goes from element %d to element %d" % (at, lo)
            at = hi
        if at != n: return "encoding covers %d of %d elements" % (at, n)
    w2 = Stream(5); w2.items = list(w.items)
    d0 = dict(dmem or {})
    for k, v in e.patched.items(): d0[k + "->value"] = v; d0[k + ".value"] = v
    for k, src in scen.get("extval", {}).items():
        if src not in e.mem: return "encoding does not compute %s" % src
        d0[k] = e.mem[src]
    d = M("dec", d0, w2, scen)
    try: go(d, dec_text)
    except Bad as x: return "decoding: %s" % x
    if d.mem["ret"] != 1: return "decoding what was encoded ends with result %s" % (d.mem["ret"],)
    if d.mem["*pErrCode"] not in (0,) and not scen.get("errok"): return "decoding what was encoded leaves the error code %s" % (d.mem["*pErrCode"],)
    if d.mem["pBitStrm"] != ("stream", "main"): return "decoding leaves another stream in place"
    if w2.pos != len(w2.items): return "decoding leaves %d of %d items unread (next %s)" % (len(w2.items) - w2.pos, len(w2.items), w2.items[w2.pos][:2])
    for k, n in e.read:
        if not re.match(r"p\b", k): continue
        x = (mem or {}).get(k, ("val", k))
        got = d.mem.get(k)
        if got != x: return "%s was %s, is decoded as %s" % (k, x, got)
    for k in list((mem or {})):
        if re.match(r"p\b", k) and k not in scen.get("lost", ()) and d.mem.get(k) != mem[k]:
            return "%s was %s, is decoded as %s" % (k, mem[k], d.mem.get(k))
    for k, v in dict(want).items():
        if d.mem.get(k) != v: return "%s is %s after decoding, not %s" % (k, d.mem.get(k), v)
    return None
