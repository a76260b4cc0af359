"""T13: constants, defaults, initial values and test values in generated code are the values they stand for. Every literal and initialiser
template of the C and Ada back ends is rendered on known values; the object it builds is computed by the rules of the target language against
the layout the type templates and the runtime declare, and compared with the value."""
import re, itertools, collections, os
from common import *
import vsem, ctempl
from vsem import Sem, Und, Bad
from ctempl import c_ast
from c_templates import load, loc, fs, body_of, rd, RT
from c_valid import Job, TF, LN

# ------------------------------------------------------------------------------------------------ layouts
class L:
    """layout of an object: scalar, array(n, of), struct / union with members in order"""
    def __init__(s, k, m=None, n=0): s.k, s.m, s.n = k, m, n
SC = L("scalar")
def arr(n, of=SC): return L("array", of, n)
def struct(*m): return L("struct", list(m))
def union(*m): return L("union", list(m))
def runtime_layouts():
    """typedef struct of the runtime header, member by member"""
    t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", rd(os.path.join(RT, "asn1crt.h")), flags=re.S)
    defs = dict(re.findall(r"^\s*#\s*define\s+(\w+)\s+(\d+)", t, re.M))
    out = {}
    for m in re.finditer(r"typedef\s+struct\s*\w*\s*\{([^{}]*)\}\s*(\w+)\s*;", t):
        mem = []
        for d in m.group(1).split(";"):
            q = re.match(r"^\s*(?:const\s+)?(\w+)\s+(\w+)\s*(?:\[\s*(\w+)\s*\])?\s*$", d)
            if q: mem.append((q.group(2), arr(int(defs.get(q.group(3), q.group(3)))) if q.group(3) and defs.get(q.group(3), q.group(3)).isdigit() else out.get(q.group(1), SC)))
        out[m.group(2)] = L("struct", mem)
    return out

# ------------------------------------------------------------------------------------------------ C initialisers
RNG = re.compile(r"\[\s*([^\[\]]+?)\s*\.\.\.\s*([^\[\]]+?)\s*\]")
def c_node(text):
    t = RNG.sub(r"[RANGE(\1, \2)]", ctempl.preproc(ctempl.strip_comments(text))).strip()
    types = list(ctempl.TYPES) + re.findall(r"\(\s*(?:const\s+)?(\w+)\s*(?:\[\s*\])?\s*\)\s*\{", t) + ["T", "Asn1TimeZone", "Asn1TimeWithTimeZone", "Asn1UtcTime", "Asn1LocalTime", "Asn1Date", "Asn1DateLocalTime", "Asn1DateUtcTime", "Asn1DateTimeWithTimeZone"]
    try: return ctempl.parse_c(t, "T F = %s ;", types).ext[-1].init
    except Exception as e: raise Bad("is not an initialiser: %s" % str(e)[:60])
def num(e):
    if isinstance(e, c_ast.Constant):
        if e.type == "char": return ord(eval(e.value))
        v = e.value.rstrip("uUlLfF") if not e.value.lower().startswith("0x") else e.value.rstrip("uUlL")
        try: return int(v, 0)
        except ValueError: pass
        try: return int(v, 8) if re.fullmatch(r"0[0-7]*", v) else float(v)
        except ValueError: raise Und("constant " + e.value)
    if isinstance(e, c_ast.ID): return {"TRUE": 1, "FALSE": 0, "NULL": 0}.get(e.name, e.name)
    if isinstance(e, c_ast.UnaryOp) and e.op in "+-":
        v = num(e.expr); return v if e.op == "+" else -v
    if isinstance(e, c_ast.Cast): return num(e.expr)
    if isinstance(e, c_ast.BinaryOp) and e.op in "+-*":
        a, b = num(e.left), num(e.right)
        if isinstance(a, int) and isinstance(b, int): return a + b if e.op == "+" else a - b if e.op == "-" else a * b
        return "%s%s%s" % (a, e.op, b)
    raise Und("value of " + type(e).__name__)
def zero(l):
    if l.k == "scalar": return 0
    if l.k == "array": return [zero(l.m) for _ in range(l.n)]
    return {n: zero(x) for n, x in l.m} if l.k == "struct" else {}
def build(l, e):
    """the object an initialiser makes of a place with layout l"""
    if isinstance(e, c_ast.CompoundLiteral): e = e.init
    if l.k == "scalar":
        if isinstance(e, c_ast.InitList):
            if len(e.exprs or []) != 1: raise Bad("a scalar is initialised with %d values" % len(e.exprs or []))
            e = e.exprs[0]
        return num(e)
    if l.k == "array" and isinstance(e, c_ast.Constant) and e.type == "string": raise Und("text")
    if not isinstance(e, c_ast.InitList): return num(e) if isinstance(e, c_ast.ID) else (_ for _ in ()).throw(Bad("an aggregate is initialised with a plain value"))
    v = zero(l); pos = 0; seen = set()
    for x in e.exprs or []:
        des = []
        if isinstance(x, c_ast.NamedInitializer): des, x = list(x.name), x.expr
        if not des:
            if l.k == "array": des = [("i", pos)]
            else:
                if pos >= len(l.m) or l.k == "union" and pos: raise Bad("has more values than the object has members")
                des = [c_ast.ID(l.m[pos][0])]
        if l.k == "struct" and len(des) == 1 and isinstance(des[0], c_ast.ID):
            if des[0].name in seen: raise Bad("sets the member '%s' twice" % des[0].name)
            seen.add(des[0].name)
        v, pos = put(v, l, des, x)
        pos += 1
    return v
def put(v, l, des, x):
    """value v of layout l with the designated part set; and the position of the first designator"""
    if not des: return build(l, x), 0
    d, rest = des[0], des[1:]
    if type(d).__name__ == "ArrayDesignator": d = next(c for _, c in d.children())
    if isinstance(d, c_ast.ID):
        if l.k not in ("struct", "union"): raise Bad("names the member %s of something that has none" % d.name)
        ml = dict(l.m).get(d.name)
        if ml is None: raise Bad("sets the member '%s', which the type does not have (%s)" % (d.name, ", ".join(n for n, _ in l.m)))
        if l.k == "union" and d.name not in v: v = {d.name: zero(ml)}
        v[d.name] = put(v[d.name], ml, rest, x)[0]
        return v, [n for n, _ in l.m].index(d.name)
    if l.k != "array": raise Bad("indexes something that is no array")
    if isinstance(d, tuple): lo = hi = d[1]
    elif isinstance(d, c_ast.FuncCall): lo, hi = num(d.args.exprs[0]), num(d.args.exprs[1])
    else: lo = hi = num(d)
    if not isinstance(lo, int): raise Und("index " + str(lo))
    if not isinstance(hi, int): hi = l.n - 1
    if lo < 0 or hi >= l.n or hi < lo: raise Bad("initialises element %d..%d of an array of %d" % (lo, hi, l.n))
    for i in range(lo, hi + 1): v[i] = put(v[i], l.m, rest, x)[0]
    return v, hi
def c_string(text):
    """the characters of adjacent string literals"""
    out, t = [], text.strip()
    while t:
        m = re.match(r'"((?:[^"\\\n]|\\.)*)"\s*', t)
        if not m: raise Bad("is not a sequence of string literals: %s" % t[:40])
        s = m.group(1); t = t[m.end():]; i = 0
        while i < len(s):
            if s[i] != "\\": out.append(s[i]); i += 1; continue
            q = re.match(r"\\([0-7]{1,3})|\\x([0-9a-fA-F]+)|\\(.)", s[i:])
            i += q.end()
            if q.group(1): out.append(chr(int(q.group(1), 8)))
            elif q.group(2): out.append(chr(int(q.group(2), 16) & 255))
            else: out.append({"n": "\n", "r": "\r", "t": "\t", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}.get(q.group(3), q.group(3)))
    return "".join(out)

# ------------------------------------------------------------------------------------------------ Ada aggregates
def ada_tok(t):
    t = re.sub(r"--[^\n]*", "", t)
    return re.findall(r'"(?:[^"]|"")*"|\d+#[0-9a-fA-F]+#|\d+\.\d+(?:[eE][-+]?\d+)?|\d+|[A-Za-z_][\w.]*(?:\'(?=\())?|\'.\'|=>|<>|\.\.|[(),&+*-]', t)
class Agg:
    def __init__(s, items): s.items = items              # [(choice or None, value)]
def ada_expr(text):
    """value, or aggregate, of an Ada expression"""
    tk = ada_tok(text); p = [0]
    if re.sub(r"\s", "", re.sub(r"--[^\n]*", "", text)) != re.sub(r"\s", "", "".join(tk)): raise Bad("is not an Ada expression: %s" % " ".join(text.split())[:70])
    def peek(): return tk[p[0]] if p[0] < len(tk) else None
    def take(x=None):
        v = peek()
        if v is None or x is not None and v != x: raise Bad("is not an Ada expression: '%s' where %s is needed" % (v, x or "a value"))
        p[0] += 1; return v
    def prim():
        v = take()
        if v == "-": return -prim()
        if v == "+": return prim()
        if v.endswith("'"): take("("); r = agg(); r.type = v[:-1].lower(); return r
        if v == "(": return agg()
        if v[0] == '"': return v[1:-1].replace('""', '"')
        if "#" in v: b, d = v.strip("#").split("#"); return int(d, int(b))
        if v[0].isdigit(): return float(v) if "." in v else int(v)
        if v[0] == "'": return v[1]
        if v == "<>": return "<>"
        if not re.match(r"[A-Za-z_]", v): raise Bad("is not an Ada expression: unexpected '%s'" % v)
        return v.lower()
    def add():
        v = prim()
        while peek() in ("+", "-") and isinstance(v, int):
            o = take(); w = prim(); v = v + w if o == "+" else v - w
        return v
    def cat():
        v = add(); parts = [v]
        while peek() == "&": take(); parts.append(add())
        return parts[0] if len(parts) == 1 else ("&", parts)
    def agg():
        items = []
        if peek() == ")": raise Bad("has an empty aggregate, which Ada does not allow")
        while True:
            if peek() == "null" and tk[p[0] + 1:p[0] + 2] == ["record"]: take(); take()
            else:
                v = cat(); c = None
                if peek() == "=>": take(); c, v = v, cat()
                items.append((c, v))
            if peek() == ")": take(); break
            take(",")
        return Agg(items)
    v = cat()
    if peek() is not None: raise Bad("is not an Ada expression: '%s' is left over" % peek())
    return v
def ada_build(l, v):
    if isinstance(v, Agg):
        pos = [c is None for c, _ in v.items]
        if any(pos) and l.k != "array" and not all(pos): raise Bad("mixes named and positional members")
        if l.k == "scalar":
            if len(v.items) == 1 and pos[0]: return ada_build(l, v.items[0][1])
            raise Bad("an aggregate is given for a scalar")
        if l.k == "array":
            out = [None] * l.n; k = 0
            for n, (c, x) in enumerate(v.items):
                if c == "others":
                    if n != len(v.items) - 1: raise Bad("'others' is not last")
                    out = [ada_build(l.m, x) if o is None else o for o in out]
                elif c is None:
                    if k >= l.n: raise Bad("gives element %d of an array of %d" % (k + 1, l.n))
                    out[k] = ada_build(l.m, x); k += 1
                else:
                    if not isinstance(c, int) or not 1 <= c <= l.n: raise Bad("gives element %s of an array 1..%d" % (c, l.n))
                    if out[c - 1] is not None: raise Bad("gives element %d twice" % c)
                    out[c - 1] = ada_build(l.m, x)
            if any(o is None for o in out): raise Bad("leaves elements of the array open")
            if any(c is None for c, _ in v.items) and any(isinstance(c, int) for c, _ in v.items): raise Bad("mixes named and positional elements")
            return out
        names = {n.lower(): (n, x) for n, x in l.m}; out = {}
        for k, (c, x) in enumerate(v.items):
            if c is None:
                if k >= len(l.m): raise Bad("has more values than the record has members")
                c = l.m[k][0].lower()
            if c not in names: raise Bad("sets the member '%s', which the type does not have (%s)" % (c, ", ".join(n for n, _ in l.m)))
            if names[c][0] in out: raise Bad("sets the member '%s' twice" % c)
            out[names[c][0]] = ada_build(names[c][1], x)
        if l.k == "struct":
            for n, _ in l.m:
                if n not in out and not n.startswith("?"): raise Bad("gives no value to the member '%s'" % n)
        return out
    if l.k != "scalar" and not isinstance(v, str): raise Bad("an aggregate is initialised with a plain value")
    return {"true": 1, "false": 0}.get(v, v) if isinstance(v, str) else v

# ------------------------------------------------------------------------------------------------ statements
class Obj(Sem):
    """statements over one object: places are paths, arrays have sizes"""
    def __init__(s, mem, calls, sizes): Sem.__init__(s, mem, calls); s.sizes = sizes; s.writes = []
    def key(s, e):
        if isinstance(e, c_ast.FuncCall) and isinstance(e.name, (c_ast.StructRef, c_ast.ID)):
            k = s.key(e.name)
            if k in s.sizes: return s.elem(k, s.ev(e.args.exprs[0]) - 1)
            return None
        if isinstance(e, c_ast.ArrayRef):
            k = s.key(e.name)
            if k is None or k in s.mem and not (k in s.sizes): return None
            return s.elem(k, s.ev(e.subscript))
        return Sem.key(s, e)
    def elem(s, k, i):
        if not isinstance(i, int): raise Und("index")
        if k not in s.sizes: raise Bad("'%s' is used as an array, which it is not" % k)
        if not 0 <= i < s.sizes[k]: raise Bad("element %d of the array %s of %d is set" % (i, k, s.sizes[k]))
        return "%s[%d]" % (k, i)
    def ev(s, e):
        if isinstance(e, c_ast.Assignment) and e.op == "=":
            k = s.key(e.lvalue)
            if k is None: raise Und("assigned place")
            if k in s.sizes: raise Bad("the array %s is assigned as a whole" % k)
            root = re.sub(r"\[\d+\]", "[]", k)
            if s.known is not None and root not in s.known and not k.startswith("ret"): raise Bad("sets '%s', which the type does not have" % k)
            s.writes.append(k)
        if isinstance(e, c_ast.ArrayRef):
            k = s.key(e)
            if k is not None:
                if k in s.mem: return s.mem[k]
                raise Bad("reads '%s' before it is set" % k)
        if isinstance(e, c_ast.FuncCall):
            k = s.key(e)
            if k is not None and k in s.mem: return s.mem[k]
        return Sem.ev(s, e)
    known = None
    def run(s, x):
        if isinstance(x, c_ast.Decl) and isinstance(x.init, c_ast.InitList): s.mem[x.name] = [s.ev(y) for y in x.init.exprs or []]; return
        return Sem.run(s, x)
    def key_text(s, e): return s.key(e)

class T13(Job):
    def __init__(s, rep, lang, grp): Job.__init__(s, rep, lang, grp, "T13"); s.rt = runtime_layouts() if lang == "c" else None
    def text(s, name, **kw): return Job.text(s, name, **{k: v for k, v in kw.items() if k in s.g.T[name].params})
    def value(s, text, l):
        if s.lang == "c": return build(l, c_node(text))
        return ada_build(l, ada_expr(text))
    def stmts(s, text, mem=None, sizes=None, known=None, calls=None):
        b = vsem.body(s.lang, text, None, False)
        low = (lambda k: k.lower()) if s.lang == "a" else (lambda k: k)
        o = Obj({low(k): v for k, v in (mem or {}).items()}, {}, {low(k): v for k, v in (sizes or {}).items()})
        o.known = {low(k) for k in known} if known is not None else None
        def fill(m, a):
            k = m.key(a[0]); v = m.ev(a[1]); n = m.ev(a[2])
            if isinstance(v, str): v = ord(v)
            if k not in m.sizes: raise Bad("memset on something that is no array (%s)" % k)
            if n > m.sizes[k]: raise Bad("memset of %d octets over the array %s of %d" % (n, k, m.sizes[k]))
            for i in range(n): m.mem["%s[%d]" % (k, i)] = v & 255
            m.writes.append(k)
        ident = lambda m, a: m.ev(a[0])
        o.calls = {"memset": fill, "adaasn1rtl.asn1byte": ident, "adaasn1rtl.bit": ident, "character": ident}
        o.calls.update(calls or {}); o.go(b); return o

def seq(v): return [int(x) if isinstance(x, bool) else x for x in v]
BYTES = ([0xA1], [0x01, 0x0A, 0xFF], [0, 0x80, 0x7F, 0x5A, 0x33])

class TV:
    """a record value given to a template"""
    def __init__(s, **k): s.k = k
    def prop(s, n):
        if n not in s.k and "alpha_set" not in s.k: raise Bad("uses the field '%s', which the value does not have" % n)
        return s.k.get(n)
class TDx:
    def __init__(s, n): s.n = n
    def prop(s, k): return {"typeName": s.n, "array": s.n + "_array", "exist": s.n + "_exist"}.get(k, s.n + "_" + k)
class Frac:
    """an optional (digits, limit) pair as the templates see it"""
    def __init__(s, v): s.v = v
    def prop(s, n): return s if n == "Value" else s.v if n == "Item1" else 10 ** len(str(s.v)) - 1 if n == "Item2" else None
    def __str__(s): return "Some((%d, 9))" % s.v

def times(fr):
    tv = TV(hours=21, mins=42, secs=37, secsFraction=Frac(563) if fr else None)
    tz = TV(sign=-1, hours=5, mins=30); dt = TV(years=2024, months=11, days=19)
    T = {"hours": 21, "mins": 42, "secs": 37, "fraction": 563 if fr else 0}; Z = dict(T, tz={"sign": -1, "hours": 5, "mins": 30}); D = {"years": 2024, "months": 11, "days": 19}
    return tv, tz, dt, [("Asn1LocalTime", "Asn1LocalTime", T), ("Asn1UtcTime", "Asn1UtcTime", T), ("Asn1LocalTimeWithTimeZone", "Asn1TimeWithTimeZone", Z), ("Asn1Date", "Asn1Date", D),
                        ("Asn1Date_LocalTime", "Asn1DateLocalTime", {"date": D, "time": T}), ("Asn1Date_UtcTime", "Asn1DateUtcTime", {"date": D, "time": T}),
                        ("Asn1Date_LocalTimeWithTimeZone", "Asn1DateTimeWithTimeZone", {"date": D, "time": Z})]

def literals(rep, lang):
    j = T13(rep, lang, "variables"); C = lang == "c"
    cnt, dat = ("nCount", "arr") if C else ("Length", "Data")
    def same(text, l, want):
        got = j.value(text, l)
        return None if got == want else "the value is %s, not %s" % (got, want)
    def simple(name, cases):
        j.each(name, lambda: [("for %s" % (d,), lambda kw=kw, w=w: same(j.text(name, **kw), SC, w)) for d, kw, w in cases])
    simple("PrintIntValue", [(v, dict(nValue=v), v) for v in (0, 7, -5, 2 ** 40)])
    simple("PrintEnumValue", [("a name", dict(sValue="en_a"), "en_a")])
    simple("PrintRefValue1", [("a name", dict(sValue="va_a"), "va_a")])
    simple("PrintRefValue2", [("a name", dict(sModName="mo", sValue="va_a"), "va_a" if C else "mo.va_a")])
    simple("PrintBooleanValue", [(tf, dict(bValue=tf), int(tf)) for tf in (True, False)])
    simple("PrintNullValue", [("NULL", {}, 0)])
    simple("PrintRealValue", [(v, dict(dValue=v), v) for v in (1.5, -0.25)])
    # --- strings
    SPEC = {"PrintLF": "\n", "PrintCR": "\r", "PrintHT": "\t", "PrintStringValueNull": "\0"}
    def chars(text):
        if C: return c_string(text)
        v = ada_expr(text); parts = v[1] if isinstance(v, tuple) else [v]; o = ""
        for p in parts:
            q = {"adaasn1rtl.lf": "\n", "adaasn1rtl.cr": "\r", "adaasn1rtl.ht": "\t", "adaasn1rtl.nul": "\0"}.get(p)
            o += q if q is not None else p
        return o
    for n, w in SPEC.items(): j.each(n, lambda n=n, w=w: [("as a literal", lambda: None if chars(j.text(n)) == w else "stands for the characters %r" % chars(j.text(n)))])
    j.each("PrintSingleStringValue", lambda: [("for %r" % v, lambda v=v: None if chars(j.text("PrintSingleStringValue", sValue=v)) == v else "stands for %r" % chars(j.text("PrintSingleStringValue", sValue=v))) for v in ("", "ab c", "x1-'")])
    def strj():
        nul = j.text("PrintStringValueNull")
        for n in range(1, 4):
            for combo in itertools.product(["ab", "5"] + list(SPEC), repeat=n):
                for k in (1, 3):
                    def th(combo=combo, k=k):
                        t = j.text("PrintStringValue", arrsVals=[j.text(c) if c in SPEC else j.text("PrintSingleStringValue", sValue=c) for c in combo], arrsNullChars=[nul] * k)
                        want = "".join(SPEC.get(c, c) for c in combo); got = chars(t)
                        ok = got == want + "\0" * k or C and got == want
                        return None if ok else "the characters are %r" % got
                    yield "%s, %d free places" % (" ".join(combo), k), th
    j.each("PrintStringValue", strj)
    # --- octet and bit strings
    def lay(fixed, n): return struct(*([] if fixed else [(cnt, SC)]), (dat, arr(n)))
    def want(fixed, n, data, cap): 
        v = {dat: data + [0] * (cap - len(data))}
        if not fixed: v[cnt] = n
        return v
    def octets(name):
        for b in BYTES:
            for fx in (True, False):
                for cap in ((len(b),) if fx else (len(b), len(b) + 2)):
                    yield "for octets %s, %s" % (b, "fixed" if fx else "up to %d" % cap), lambda b=b, fx=fx, cap=cap: same(j.text(name, td=TDx("oo"), bIsFixedSize=fx, arruBytes=b, nCount=len(b)), lay(fx, cap), want(fx, len(b), b, cap))
    for n in ("PrintOctetStringValue", "PrintBitOrOctetStringValue", "PrintBitOrOctetStringValueAsCompoundLiteral"): j.each(n, lambda n=n: octets(n))
    def bits():
        for s in ("1", "10110011", "1011001110", "0" * 17 + "1"):
            by = [int(s[i:i + 8].ljust(8, "0"), 2) for i in range(0, len(s), 8)]
            for fx in (True, False):
                cap = (len(by) if C else len(s)) + (0 if fx else 1); data = by if C else [int(c) for c in s]
                yield "for the bits %s, %s size" % (s, "fixed" if fx else "variable"), lambda s=s, fx=fx, by=by, cap=cap, data=data: same(j.text("PrintBitStringValue", td=TDx("bb"), bIsFixedSize=fx, arrsBits=list(s), nCount=len(s), arruBytes=by, nBytesCount=len(by)), lay(fx, cap), want(fx, len(s), data, cap))
    j.each("PrintBitStringValue", bits)
    j.each("PrintOctetArrayAsCompoundLiteral", lambda: [("for %s" % b, lambda b=b: same(j.text("PrintOctetArrayAsCompoundLiteral", arruBytes=b), arr(len(b)), b)) for b in BYTES])
    if not C: j.each("PrintBitArrayAsCompoundLiteral", lambda: [("for %s" % b, lambda b=b: same(j.text("PrintBitArrayAsCompoundLiteral", arruBits=b), arr(len(b)), b)) for b in ([1], [1, 0, 0, 1, 1])])
    # --- object identifiers
    ol = j.rt["Asn1ObjectIdentifier"] if C else struct(("Length", SC), ("values", arr(20)))
    for n in ("PrintObjectIdentifierValue", "PrintObjectIdentifierValueAsCompoundLiteral"):
        j.each(n, lambda n=n: [("for %s" % (v,), lambda v=v: same(j.text(n, td=TDx("oi"), arrnValues=v, nCount=len(v)), ol, {ol.m[0][0]: len(v), ol.m[1][0]: v + [0] * (ol.m[1][1].n - len(v))})) for v in ([1, 2], [1, 3, 6, 1, 4, 1, 99999])])
    # --- date and time
    if C:
        for fr in TF:
            tv, tz, dt, rows = times(fr)
            for suf, ty, w in rows:
                for pre in ("PrintTimeValue_", "PrintTimeValueAsCompoundLiteral_"):
                    if ty not in j.rt: continue
                    j.each(pre + suf, lambda n=pre + suf, ty=ty, w=w, tv=tv, tz=tz, dt=dt, fr=fr: [("%s a fraction" % ("with" if fr else "without"), lambda: same(j.text(n, td=TDx(ty), tv=tv, tz=tz, dt=dt), j.rt[ty], w))])
    # --- sequences, choices, lists
    def sq():
        if not j.has("PrintSequenceValueChild") or not j.has("PrintSequenceValue_child_exists"): raise Und("member templates")
        for n, opt in ((1, ()), (2, ()), (2, (1,)), (3, (0, 2)), (2, (0, 1))):
            for ex in itertools.product(TF, repeat=len(opt)):
                ms = ["ma", "mb", "mc"][:n]; vals = [31, 32, 33][:n]
                l = struct(*[(m, SC) for m in ms], *([("exist" if C else "Exist", struct(*[(ms[o], SC) for o in opt]))] if opt else []))
                w = dict(zip(ms, vals))
                if opt: w["exist" if C else "Exist"] = {ms[o]: e for o, e in zip(opt, ex)}
                def th(ms=ms, vals=vals, opt=opt, ex=ex, l=l, w=w):
                    t = j.text("PrintSequenceValue", td=TDx("ss"), sTasName="ss", arrsChildren=[j.text("PrintSequenceValueChild", sName=m, sInnerValue=str(v)) for m, v in zip(ms, vals)],
                               arrsOptionalPresentFields=[j.text("PrintSequenceValue_child_exists", sName=ms[o], sExistsBit=str(e)) for o, e in zip(opt, ex)])
                    return same(t, l, w)
                yield "members %s, optional %s present %s" % (ms, [ms[o] for o in opt], list(ex)), th
    j.each("PrintSequenceValue", sq)
    def ch():
        for k, alt in enumerate(("aa", "ab")):
            l = struct(("kind", SC), ("u", union(("aa", SC), ("ab", SC)))) if C else struct(("kind", SC), ("?aa", SC), ("?ab", SC))
            w = {"kind": alt + "_present", "u": {alt: 31}} if C else None
            def th(alt=alt, l=l, w=w):
                t = j.text("PrintChoiceValue", sTasName="cc", sChildName=alt, sChildVal="31", sChildNamePresent=alt + "_present", bUseUncheckedUnions=True)
                if C: return same(t, l, w)
                g = ada_build(struct(("kind", SC), (alt, SC)), ada_expr(t))
                return None if g == {"kind": alt + "_present", alt: 31} else "the value is %s" % g
            yield "alternative %s" % alt, th
    j.each("PrintChoiceValue", ch)
    def so():
        for vals in ([31], [31, 32, 33]):
            for fx in (True, False):
                cap = len(vals) + (0 if fx else 2)
                def th(vals=vals, fx=fx, cap=cap):
                    t = j.text("PrintSequenceOfValue", td=TDx("ll"), bIsFixedSize=fx, nLength=len(vals), arrsInnerValues=[str(v) for v in vals], sDefValue="0")
                    return same(t, lay(fx, cap), want(fx, len(vals), vals, cap))
                yield "%d elements, %s size" % (len(vals), "fixed" if fx else "variable"), th
    j.each("PrintSequenceOfValue", so)
    def va():
        t = j.text("PrintValueAssignment", sName="kk", sVasName="kk", sTypeDecl="tt", sValue="31") if "sVasName" in j.g.T["PrintValueAssignment"].params and "sName" in j.g.T["PrintValueAssignment"].params else j.text("PrintValueAssignment", **{"sName" if C else "sVasName": "kk", "sTypeDecl": "tt", "sValue": "31"})
        m = re.fullmatch(r"const\s+tt\s+kk\s*=\s*31\s*;" if C else r"kk\s*:\s*constant\s+tt\s*:=\s*31\s*;", t.strip())
        yield "as a declaration", lambda: None if m else "declares '%s'" % " ".join(t.split())
    j.each("PrintValueAssignment", va)
    return j

def initials(rep, lang):
    j = T13(rep, lang, "init"); C = lang == "c"
    cnt, dat = ("nCount", "arr") if C else ("Length", "Data")
    P = dict(p="p", sAcc=".")
    first = 0 if C else 1
    def k(*x): return ".".join(x) if C else ".".join(x).lower()
    def setone(name, place, cases):
        def th(kw, w):
            o = j.stmts(j.text(name, **kw), known=[place])
            g = o.mem.get(place.lower() if not C else place)
            return None if g == w else "%s becomes %s, not %s" % (place, g, w)
        j.each(name, lambda: [("for %s" % (w,), lambda kw=kw, w=w: th(kw, w)) for kw, w in cases])
    tgt = lambda n: "sVal" if "sVal" in j.g.T[n].params else "p"
    for n, cases in (("initInteger", [("sValue", "7", 7)]), ("initReal", [("dValue", 3, 3)]), ("initBoolean", [("bValue", True, 1), ("bValue", False, 0)]), ("initEnumerated", [("sValue", "17", 17)])):
        if j.has(n): setone(n, "pv", [({tgt(n): "pv", a: v}, w) for a, v, w in cases])
    if j.has("initNull"): setone("initNull", "pv", [({tgt("initNull"): "pv"}, 0)])
    if j.has("assignAny"): setone("assignAny", "p", [(dict(p="p", sValue="41", sTypeDecl="int"), 41)])
    if C:
        def st(name, fn, kw):
            def th():
                seen = []
                j.stmts(j.text(name, **kw), {"src": 5}, {}, None, {fn: lambda m, a: seen.append([m.key(x) if isinstance(x, c_ast.ID) else x for x in a])})
                if len(seen) != 1: return "does not copy"
                return None if seen[0][:2] == ["pp", "src"] else "copies %s to %s" % (seen[0][1], seen[0][0])
            j.each(name, lambda: [("of a text", th)])
        if j.has("initIA5String"): st("initIA5String", "strcpy", dict(sPtr="pp", sValue="src"))
    elif j.has("initIA5String"): setone("initIA5String", "pp", [(dict(sPtr="pp", sValue="61"), 61)])
    # --- object identifiers
    def oid():
        lf = j.rt["Asn1ObjectIdentifier"] if C else None
        cn, vn, cap = (lf.m[0][0], lf.m[1][0], lf.m[1][1].n) if C else ("length", "values", 20)
        for v in ([1, 2], [1, 3, 6, 1, 99999], []):
            def th(v=v):
                t = j.text("initObjectIdentifier", nSize=len(v), arrsValues=[j.text("initObjectIdentifier_valid", sI=str(i + first), nIntVal=x, **P) for i, x in enumerate(v)], **P)
                o = j.stmts(t, {}, {k("p", vn): cap}, [k("p", cn), k("p", vn) + "[]"])
                g = [o.mem.get("%s[%d]" % (k("p", vn), i)) for i in range(len(v))]
                if g != v: return "the arcs are %s, not %s" % (g, v)
                return None if o.mem.get(k("p", cn)) == len(v) else "the count is %s, not %d" % (o.mem.get(k("p", cn)), len(v))
            yield "for %s" % v, th
    if j.has("initObjectIdentifier_valid"): j.each("initObjectIdentifier", oid)
    # --- date and time
    def flat(l, pre):
        if l.k == "struct": return [y for n, x in l.m for y in flat(x, pre + "." + n)]
        return [pre]
    def flatv(v, pre):
        return [y for n, x in v.items() for y in flatv(x, pre + "." + n)] if isinstance(v, dict) else [(pre, v)]
    if C:
        for fr in TF:
            tv, tz, dt, rows = times(fr)
            for suf, ty, w in rows:
                if ty not in j.rt: continue
                def th(n, ty, w, tv=tv, tz=tz, dt=dt):
                    o = j.stmts(j.text(n, tv=tv, tz=tz, dt=dt, **{a: b for a, b in P.items() if a in j.g.T[n].params}), {}, {}, flat(j.rt[ty], "p"))
                    for a, x in flatv(w, "p"):
                        if o.mem.get(a) != x: return "%s becomes %s, not %s" % (a, o.mem.get(a), x)
                j.each("init_" + suf, lambda n="init_" + suf, ty=ty, w=w, th=th, fr=fr: [("%s a fraction" % ("with" if fr else "without"), lambda: th(n, ty, w))])
                if not fr: j.each("init_" + suf + "Expr", lambda n="init_" + suf + "Expr", ty=ty: [("as an initialiser", lambda: None if j.value(j.text(n), j.rt[ty]) == zero(j.rt[ty]) else "is not the zero value")])
    # --- octet and bit strings
    def octs(name, var):
        for b in BYTES:
            def th(b=b):
                kw = dict(P, arrsBytes=[j.text("initFixSizeBitOrOctString_bytei", sI=str(i + first), sByteHexVal="%x" % x, **P) for i, x in enumerate(b)])
                if var: kw["nSize"] = len(b)
                t = j.text(name, **kw)
                if not C: t = re.sub(r"16#([0-9a-fA-F]+)#", lambda m: str(int(m.group(1), 16)), t)
                o = j.stmts(t, {}, {k("p", dat): len(b)}, [k("p", dat) + "[]"] + ([k("p", cnt)] if var else []))
                g = [o.mem.get("%s[%d]" % (k("p", dat), i)) for i in range(len(b))]
                if g != b: return "the octets are %s" % g
                return None if not var or o.mem.get(k("p", cnt)) == len(b) else "the count is %s" % o.mem.get(k("p", cnt))
            yield "for %s" % b, th
    if j.has("initFixSizeBitOrOctString_bytei"):
        j.each("initFixSizeBitOrOctString", lambda: octs("initFixSizeBitOrOctString", False)); j.each("initFixVarSizeBitOrOctString", lambda: octs("initFixVarSizeBitOrOctString", True))
    def case(name, bits):
        for n in ((1, 5, 8, 9, 17, 63) if bits else (1, 3, 300)):
            for fx, z in itertools.product((True, False), repeat=2):
                for mn in ((n,) if fx else (0, 1)):
                    def th(n=n, fx=fx, z=z, mn=mn):
                        octets = (n + 7) // 8 if bits and C else n
                        kw = dict(P, sArrayHolderName="p", nSize=n, i="i1", bIsFixedSize=fx, bZero=z, nMinSize=mn)
                        if bits: kw["nSizeCeiled"] = octets * 8 if C else (n + 7) // 8 * 8
                        o = j.stmts(j.text(name, **kw), {"i1": 99}, {k("p", dat): octets}, ["i1", k("p", dat) + "[]"] + ([] if fx else [k("p", cnt)]))
                        g = [o.mem.get("%s[%d]" % (k("p", dat), i)) for i in range(octets)]
                        if any(x is None for x in g): return "%s %d of %d is left open" % ("octet" if C or not bits else "bit", g.index(None), octets)
                        if z and any(g): return "the zero value has a non-zero octet"
                        top = 1 if bits and not C else 255
                        if any(not 0 <= x <= top for x in g): return "an item is out of its range"
                        if not fx:
                            c = o.mem.get(k("p", cnt)); w = mn if z else n
                            if c != w: return "the count is %s, not %d" % (c, w)
                    yield "size %d, %s%s" % (n, "fixed" if fx else "variable from %d" % mn, ", zero value" if z else ""), th
    j.each("initTestCaseOctetString", lambda: case("initTestCaseOctetString", False)); j.each("initTestCaseBitString", lambda: case("initTestCaseBitString", True))
    # --- character strings
    def chr_():
        for n, cap in ((0, 4), (3, 4), (4, 4), (30, 31)):
            for al, z in itertools.product((True, False), repeat=2):
                A = [0x30, 0x41, 0x7A]
                def th(n=n, cap=cap, al=al, z=z):
                    t = j.text("initTestCaseIA5String", nSize=n, nMaxSizePlusOne=cap + 1, i="i1", td=TV(alpha_set="alset"), bAlpha=al, arrnAlphabetAsciiCodes=A, nAlphabetLength=len(A), bZero=z, sInitChar="65" if not C else "'A'", sResVar="r", **P)
                    if not C:
                        t = re.sub(r"(?i)character'val\s*\(\s*character'pos\s*\(\s*'A'\s*\)\s*\+", "(65 +", t); t = re.sub(r"(?i)\badaasn1rtl\.nul\b", "0", t)
                        t = re.sub(r"(?i)alset'last", str(len(A)), t)
                        if len(re.findall(r"(?i)\bif\b(?!\s*;)", t)) - len(re.findall(r"(?i)\bend\s+if\b", t)) * 2 != 0: return "the number of 'if' (%d) and 'end if' (%d) differs" % (len(re.findall(r"(?i)\bif\b", t)) - len(re.findall(r"(?i)\bend\s+if\b", t)), len(re.findall(r"(?i)\bend\s+if\b", t)))
                    sizes = {"p": cap + 1}
                    mem = {"i1": 99}
                    if not C: sizes["alset"] = len(A); mem.update({"alset[%d]" % i: x for i, x in enumerate(A)})
                    o = j.stmts(t, mem, sizes, ["i1", "p[]"])
                    g = [o.mem.get("p[%d]" % i) for i in range(cap + 1)]
                    want_set = {65} if z else set(A) if al else set(range(65, 91))
                    for i in range(n):
                        if g[i] not in want_set: return "character %d is %s, outside the alphabet" % (i, g[i])
                    rest = g[n:] if not C or not z else g[n:n + 1]
                    if any(x != 0 for x in rest): return "the text does not end after %d characters" % n
                yield "%d of %d characters%s%s" % (n, cap, ", alphabet" if al else "", ", zero value" if z else ""), th
    j.each("initTestCaseIA5String", chr_)
    # --- lists
    def lst():
        for n, m in ((1, 1), (5, 1), (5, 2), (7, 3)):
            for fx in (True, False):
                for nm in (None,) if fx else (None, 2):
                    def th(n=n, m=m, fx=fx, nm=nm):
                        items = [j.text("initTestCaseSizeSequenceOf_innerItem", bFirst=c == 0, bLastItem=c == m - 1, nCaseIdx=c, sChildCaseInit=("p.%s[i1] = %d;" if C else "p.%s(i1) := %d;") % (dat, 50 + c), i="i1", nCaseLen=m, sResVar="r") for c in range(m)] if m > 1 else [("p.%s[i1] = 50;" if C else "p.%s(i1) := 50;") % dat]
                        t = j.text("initTestCaseSizeSequenceOf", sArrayHolderName="p", noMinSize=nm, nSize=n, bIsFixedSize=fx, arrsInnerItems=items, bMultiCases=m > 1, i="i1", sResVar="r", **P)
                        o = j.stmts(t, {"i1": 99}, {k("p", dat): n}, ["i1", k("p", dat) + "[]"] + ([] if fx else [k("p", cnt)]))
                        g = [o.mem.get("%s[%d]" % (k("p", dat), i)) for i in range(n)]
                        w = [50 + (i % m) for i in range(n)]
                        if g != w: return "the elements are initialised by the cases %s, not %s" % (g, w)
                        if not fx and o.mem.get(k("p", cnt)) != (n if nm is None else nm): return "the count is %s, not %s" % (o.mem.get(k("p", cnt)), n if nm is None else nm)
                    yield "%d elements, %d cases, %s%s" % (n, m, "fixed" if fx else "variable", "" if nm is None else " from %d" % nm), th
    if j.has("initTestCaseSizeSequenceOf_innerItem"): j.each("initTestCaseSizeSequenceOf", lst)
    def inner(name, var):
        def th():
            kw = dict(arrsInnerValues=[("p.%s[%d] = %d;" if C else "p.%s(%d) := %d;") % (dat, i + first, 60 + i) for i in range(3)])
            if var: kw.update(P, nSize=3)
            o = j.stmts(j.text(name, **kw), {}, {k("p", dat): 3}, [k("p", dat) + "[]", k("p", cnt)])
            if [o.mem.get("%s[%d]" % (k("p", dat), i)) for i in range(3)] != [60, 61, 62]: return "not every element is initialised"
            if var and o.mem.get(k("p", cnt)) != 3: return "the count is %s, not 3" % o.mem.get(k("p", cnt))
        j.each(name, lambda: [("3 elements", th)])
    inner("initFixedSequenceOf", False); inner("initVarSizeSequenceOf", True)
    # --- sequences and choices
    body = "p.ma = 31;" if C else "p.ma := 31;"
    def mem(name, kw, want):
        def th():
            o = j.stmts(j.text(name, **kw), {}, {}, ["p.ma", "p.exist.ma", "p.kind"])
            for a, v in want.items():
                if o.mem.get(a) != v: return "%s becomes %s, not %s" % (a, o.mem.get(a), v)
            return "sets more than it has to (%s)" % (set(o.mem) - set(want)) if set(o.mem) - set(want) else None
        return th
    j.each("initSequence_optionalChild", lambda: [("presence %s" % e, mem("initSequence_optionalChild", dict(P, sChName="ma", sPresentFlag=e, sChildContent=body), {"p.exist.ma": int(e), "p.ma": 31})) for e in "01"])
    j.each("initTestCase_sequence_child", lambda: [("%s member" % ("optional" if b else "mandatory"), mem("initTestCase_sequence_child", dict(P, sChName="ma", sChildContent=body, bOptional=b, sInitExpr="x"), dict({"p.ma": 31}, **({"p.exist.ma": 1} if b else {})))) for b in (True, False)])
    j.each("initTestCase_sequence_child_opt", lambda: [("absent", mem("initTestCase_sequence_child_opt", dict(P, sChName="ma", sChildTypedef="t", sResVar="r"), {"p.exist.ma": 0}))])
    j.each("initSequence", lambda: [("members", lambda: None if j.stmts(j.text("initSequence", arrsInnerValues=[body, body.replace("ma", "mb").replace("31", "32")])).mem == {"p.ma": 31, "p.mb": 32} else "not every member is initialised")])
    if C:
        for n in ("initChoice", "initTestCase_choice_child"):
            j.each(n, lambda n=n: [("an alternative", mem(n, dict(P, sChildContent=body, sChildID="4", sChildName="ma", sChildTypeName="t", sChoiceTypeName="c"), {"p.kind": 4, "p.ma": 31}))])
    else:
        def adach(n, tmp):
            t = j.text(n, p="p", sAcc=".", sChildContent="@BODY@", sChildID="alt_present", sChildName="ma", sChildTypeName="tt", sChoiceTypeName="cc", **({"sChildTempVarName": "tmpv", "bComponentTempInit": tmp} if n == "initChoice" else {}))
            m = re.search(r"p\s*:=\s*(cc'\(.*?\))\s*;", t, re.S)
            if not m: return "the choice is not set"
            v = ada_build(struct(("kind", SC), ("ma", SC)), ada_expr(m.group(1)))
            if v["kind"] != "alt_present": return "the alternative is %s" % v["kind"]
            if tmp: return None if v["ma"] == "tmpv" and t.index("@BODY@") < m.start() else "the initialised component is not used"
            return None if v["ma"] == "<>" and t.index("@BODY@") > m.start() else "the component is initialised before the alternative is set"
        j.each("initChoice", lambda: [("component in a temporary" if b else "component in place", lambda b=b: adach("initChoice", b)) for b in (True, False)])
        j.each("initTestCase_choice_child", lambda: [("component in place", lambda: adach("initTestCase_choice_child", False))])
    def callj():
        seen = []
        j.stmts(j.text("initChildWithInitFunc", p="pp", sChildInitFuncName="child_init"), {}, {}, None, {"child_init": lambda m, a: seen.append(m.key(a[0]))})
        return None if seen == ["pp"] else "calls the initialiser with %s" % seen
    j.each("initChildWithInitFunc", lambda: [("a call", callj)])
    # --- named bits
    def nb():
        for v in (0, 1, 7, 8, 13, 23):
            def th(v=v):
                t = j.text("initBitStringAtPos", sVarName="val", sStar="*" if C else "", sFuncName="ff", sTypeDefName="TT", sNamedBit="bb", nZeroBasedByteIndex=v // 8, sHexByteMax="0x%X" % (1 << (7 - v % 8)) if raw else "%X" % (1 << (7 - v % 8)), nZeroBasedBitIndex=v)
                if C:
                    m = re.search(r"val->arr\[(\d+)\]\s*(\|?=)\s*(\w+)\s*;", t)
                    if not m or m.group(2) != "|=": return "does not set the bit in place"
                    try: return None if (int(m.group(1)), int(m.group(3), 0)) == (v // 8, 1 << (7 - v % 8)) else "sets %s of octet %s" % (m.group(3), m.group(1))
                    except ValueError: return "the mask %s is not the hexadecimal number meant" % m.group(3)
                m = re.search(r"(?i)val\.data\((.*?)\)\s*:=\s*(\d+)\s*;", t)
                if not m: return "does not set a bit"
                pos = eval(re.sub(r"(?i)val\.data'first", "1", m.group(1)))
                return None if (pos, m.group(2)) == (v + 1, "1") else "sets bit %d to %s" % (pos - 1, m.group(2))
            yield "bit %d" % v, th
    raw = not re.search(r"0x\s*<sHexByteMax>", j.g.T["initBitStringAtPos"].raw) if j.has("initBitStringAtPos") else True
    hexarg = re.search(r"initBitStringAtPos\s+varName.*?\((bitMask[^)]*)\)", body_of(fs("BackendAst/DAstInitialize.fs"), r"\nlet createBitStringInitFunc\b", "DAstInitialize.fs"))
    def nbtext():
        # what the generator passes: octet index, mask text, bit index
        t = body_of(fs("BackendAst/DAstInitialize.fs"), r"\nlet createBitStringInitFunc\b", "DAstInitialize.fs")
        m = re.search(r"bitMask\.ToString\(\s*\"([^\"]*)\"\s*\)", t)
        if not m: raise Und("mask argument")
        pre = "0x" if re.search(r"sprintf\s+\"0x%|\"0x\"\s*\+", t) else ""
        ok = pre == "0x" or not raw or m.group(1).upper() not in ("X", "X2")
        yield "mask argument", lambda: None if ok or not C else "the mask is passed as bare hexadecimal digits (ToString(\"%s\")), and the template adds no 0x" % m.group(1)
    if C: raw0 = raw
    j.each("initBitStringAtPos", nb)
    if C: j.each("initBitStringAtPos", nbtext)
    # --- initialiser expressions
    def ex(name, l, w, **kw): j.each(name, lambda: [("as an initialiser", lambda: None if j.value(j.text(name, **kw), l) == w else "the value is %s, not %s" % (j.value(j.text(name, **kw), l), w))])
    lay = lambda fx, n, of=SC: struct(*([] if fx else [(cnt, SC)]), (dat, arr(n, of)))
    for n in (3, 9):
        no = (n + 7) // 8 if C else n
        ex("initFixSizeOctetString", lay(True, n), {dat: [0] * n}, sTypeDefName="TT", nMax=n, bZeroSizedArray=False); ex("initVarSizeOctetString", lay(False, n), {cnt: 2, dat: [0] * n}, sTypeDefName="TT", nMin=2, nMax=n)
        ex("initFixSizeBitString", lay(True, no), {dat: [0] * no}, sTypeDefName="TT", nMax=n, nMaxOctets=(n + 7) // 8); ex("initVarSizeBitString", lay(False, no), {cnt: 2, dat: [0] * no}, sTypeDefName="TT", nMin=2, nMax=n, nMaxOctets=(n + 7) // 8)
        ex("initFixSizeSequenceOfExpr", lay(True, n), {dat: [5] * n}, sTypeDefName="TT", nMax=n, sChildExp="5"); ex("initVarSizeSequenceOfExpr", lay(False, n), {cnt: 2, dat: [5] * n}, sTypeDefName="TT", nMin=2, nMax=n, sChildExp="5")
    ol = j.rt["Asn1ObjectIdentifier"] if C else struct(("Length", SC), ("values", arr(20)))
    ex("initObjectIdentifierAsExpr", ol, zero(ol))
    def sqx():
        for opt in ((), ("mb",), ("ma", "mb")):
            l = struct(("ma", SC), ("mb", SC), *([("exist" if C else "Exist", struct(*[(o, SC) for o in opt]))] if opt else []))
            w = {"ma": 31, "mb": 32}
            if opt: w["exist" if C else "Exist"] = {o: 1 for o in opt}
            def th(opt=opt, l=l, w=w):
                t = j.text("initSequenceExpr", sTypeDefName="TT", arrsChildren=[j.text("initSequenceChildExpr", sChildName=a, sChildExpr=str(b)) for a, b in (("ma", 31), ("mb", 32))], arrsOptionalChildren=[j.text("initSequenceOptionalChildExpr", sChildName=o, nPresenceBit=1) for o in opt])
                g = j.value(t, l); return None if g == w else "the value is %s" % g
            yield "optional members %s" % list(opt), th
    if j.has("initSequenceChildExpr") and j.has("initSequenceOptionalChildExpr"): j.each("initSequenceExpr", sqx)
    if C: ex("initChoiceExpr", struct(("kind", SC), ("u", union(("aa", SC), ("ab", SC)))), {"kind": "ab_present", "u": {"ab": 31}}, sChildName="ab", sChildKind="ab_present", sChildExpr="31")
    else: ex("initChoiceExpr", struct(("kind", SC), ("ab", SC)), {"kind": "ab_present", "ab": 31}, sChildName="ab", sChildKind="ab_present", sChildExpr="31")
    if C:
        def const(name, pat):
            t = " ".join(j.text(name, sTypeDecl="TT", sConstantName="KK", sValue="31").split())
            return [("as a declaration", lambda: None if re.search(pat, t) else "is '%s'" % t[:90])]
        j.each("initTypeConstant_def", lambda: const("initTypeConstant_def", r"#else #define KK 31 #endif$"))
        j.each("initTypeConstant_body", lambda: const("initTypeConstant_body", r"const TT KK = 31;"))
    return j

# ------------------------------------------------------------------------------------------------ what the generator passes
def chain(e, v):
    """value of sv.Replace(a, b)..., or None"""
    m = re.match(r"\s*\(?\s*(\w+)((?:\s*\.\s*Replace\s*\(\s*\"(?:[^\"\\]|\\.)*\"\s*,\s*\"(?:[^\"\\]|\\.)*\"\s*\))*)\s*\)?\s*$", e, re.S)
    if not m: return None
    un = lambda s: re.sub(r"\\(.)", lambda q: {"n": "\n", "t": "\t", "r": "\r"}.get(q.group(1), q.group(1)), s)
    for a, b in re.findall(r"Replace\s*\(\s*\"((?:[^\"\\]|\\.)*)\"\s*,\s*\"((?:[^\"\\]|\\.)*)\"", m.group(2)): v = v.replace(un(a), un(b))
    return v
def quoting(rep, n):
    f = "BackendAst/DAstVariables.fs"; t = fs(f)
    m = re.search(r"\|\s*CStringValue\s+(\w+)\s*->\s*[\w.]*PrintSingleStringValue\s*(\(.*\)|\w+)\s*\n", t)
    if not m: n["undecided: string literal argument"] += 1; return
    arg = m.group(2).strip()
    if arg.startswith("("): arg = arg[1:-1].strip()
    for lang in ("C", "Ada"):
        e = arg
        q = re.match(r"^(\w+)\s+(?:\w+\s+)*%s$" % m.group(1), arg)
        if q:
            h = re.search(r"\nlet\s+%s\b[^=\n]*=([\s\S]*?)\n(?=\S)" % q.group(1), t)
            if not h: n["undecided: string literal argument"] += 1; return
            rows = re.findall(r"\|\s*([\w.]+|_)\s*->\s*([^\n]*)", h.group(1))
            if re.search(r"match\s+[\w.]*hasModules\s+with", h.group(1)): rows = [({"true": "Ada", "false": "C"}.get(p, p), r) for p, r in rows]
            e = next((r for p, r in rows if p.split(".")[-1] == lang or p == "_"), h.group(1).strip() if not rows else None)
            if e is None: rep.violation("%s|quote" % lang[0].lower(), "string values have no literal form for %s" % lang, f); continue
        for s in ('a"b', '"', 'x""y', "a\\b", "\\", "\\n", "plain"):
            v = chain(e, s)
            if v is None: n["undecided: string literal argument"] += 1; return
            n["string contents"] += 1
            try: got = c_string('"%s"' % v) if lang == "C" else ada_expr('"%s"' % v)
            except (Bad, Und): got = None
            if got != s:
                rep.violation("%s|quote|%s" % (lang[0].lower(), "backslash" if "\\" in s else "quote"), "the string value %s becomes the %s literal \"%s\", which %s" % (s, lang, v, "is no literal" if got is None else "stands for %s" % got), f)
                break
def lets(t):
    """name -> right sides (a constructor pattern binds like its argument)"""
    o = collections.defaultdict(list)
    for m in re.finditer(r"\blet\s+(\w+)(?:\s*:[^=\n]*)?\s*=\s*([^\n]+(?:\n\s+match[\s\S]*?(?=\n\s+let\b))?)", t): o[m.group(1)].append(m.group(2))
    return o
def unit(e, L, octets, depth=0):
    """'octets', 'bits' or None: what a count expression counts"""
    if depth > 5: return None
    e = e.strip()
    if re.search(r"\*\s*8I?\b|\b8I?\s*\*", e): return "bits"
    m = re.search(r"(\w+)(?:\.Value)?\.Length", e)
    if m:
        v = m.group(1)
        if v in octets: return "octets"
        if re.search(r"(?i)bits?$", v): return "bits"
        for r in L.get(v, ()):
            if re.search(r"(?i)ToByteArray|bytei|bytes", r): return "octets"
            if re.search(r"ToCharArray|arBits", r): return "bits"
        return None
    if re.search(r"minSize|maxSize", e): return "bound"
    for r in L.get(re.sub(r"[()]", "", e), ()):
        u = unit(r, L, octets, depth + 1)
        if u: return u
    return None
def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([": d += 1
        if c in ")]":
            d -= 1
            if d < 0: break
        if c == " " and d == 0:
            if cur: out.append(cur)
            cur = ""; continue
        cur += c
    return out + [cur] if cur else out
def counts(rep, n):
    """the count handed to the templates of BIT STRING values is the number of bits"""
    G = load("c"); V, I = G["variables"], G["init"]
    f = "BackendAst/DAstInitialize.fs"; t = body_of(fs(f), r"\nlet createBitStringInitFunc\b", f)
    m = re.search(r"\binitFixVarSizeBitOrOctString\s+\((?!\))[^\n]*", t[t.find("let funcBody"):])
    if m:
        a = split_args(m.group(0))[1:]; ps = I.T["initFixVarSizeBitOrOctString"].params
        if len(a) == len(ps) and "nSize" in ps:
            seg = t[:t.find("let anonyms")] if "let anonyms" in t else t
            u = unit(a[ps.index("nSize")], lets(seg), ("bytes", "arrsBytes", "iv_bytes")); n["counts"] += 1
            if u in ("octets", "bound"): rep.violation("fs|initBits|count", "the initial value of a variable size BIT STRING gets %s as its count of bits (%s)" % ("the number of octets" if u == "octets" else "a bound of the type", a[ps.index("nSize")]), f)
            elif u is None: n["undecided: count"] += 1
    fb = t[t.find("let funcBody"):t.find("let anonyms") if "let anonyms" in t else None]
    conv = re.findall(r"([\w.]*)\bbitStringValueToByteArray\b", fb); n["counts"] += bool(conv)
    if conv and "initFixSizeBitOrOctString_bytei" in fb and not re.search(r"\bhasModules\b|ActiveLanguages?\b|\bAda\b", fb):
        # the elements of an Ada BIT STRING are bits, those of the C one octets: only the language's own conversion knows
        if any(not c for c in conv): rep.violation("fs|initBits|elements", "the elements of the initial value of a BIT STRING are octets for every language; the Ada type has one element for each bit", f)
    f = "BackendAst/DAstVariables.fs"; t = fs(f)
    b = body_of(t, r"\nlet printBitStringValueAsCompoundLiteral\b", f)
    m = re.search(r"\bprintOct\s+td[^\n]*", b)
    if m:
        a = split_args(m.group(0))[1:]; ps = V.T["PrintBitOrOctetStringValueAsCompoundLiteral"].params
        if len(a) == len(ps) and "nCount" in ps:
            u = unit(a[ps.index("nCount")], lets(b), ("bytes",)) or ("bits" if re.search(r"\bv(\.Value)?\.Length", a[ps.index("nCount")]) else None); n["counts"] += 1
            if re.search(r"\bv(\.Value)?\.Length", a[ps.index("nCount")]): u = "bits"
            if u in ("octets", "bound"): rep.violation("fs|literalBits|count", "the literal of a BIT STRING value gets %s as its count of bits (%s)" % ("the number of octets" if u == "octets" else "a bound of the type", a[ps.index("nCount")]), f)
            elif u is None: n["undecided: count"] += 1
    ps = V.T["PrintBitStringValue"].params
    for m in re.finditer(r"\bPrintBitStringValue\s+td[^\n]*", t):
        a = split_args(m.group(0))[1:]
        if len(a) != len(ps): continue
        seg = t[max(0, m.start() - 900):m.start()]
        u = unit(a[ps.index("nCount")], lets(seg), ("bytes",)); n["counts"] += 1
        if u in ("octets", "bound"): rep.violation("fs|PrintBitStringValue|count", "the value of a BIT STRING gets %s as its count of bits (%s)" % (u, a[ps.index("nCount")]), f)

# ------------------------------------------------------------------------------------------------ numbers and blank strings (F#)
RANGES = {"Int8": (-2 ** 7, 2 ** 7 - 1), "Int16": (-2 ** 15, 2 ** 15 - 1), "Int32": (-2 ** 31, 2 ** 31 - 1), "Int64": (-2 ** 63, 2 ** 63 - 1), "Int": (-2 ** 63, 2 ** 63 - 1),
          "UInt8": (0, 2 ** 8 - 1), "UInt16": (0, 2 ** 16 - 1), "UInt32": (0, 2 ** 32 - 1), "UInt64": (0, 2 ** 64 - 1), "UInt": (0, 2 ** 64 - 1)}
LIMITS = {"CHAR_MIN": -2 ** 7, "SCHAR_MIN": -2 ** 7, "SHRT_MIN": -2 ** 15, "INT_MIN": -2 ** 31, "INT32_MIN": -2 ** 31, "LLONG_MIN": -2 ** 63, "INT64_MIN": -2 ** 63, "INT_MAX": 2 ** 31 - 1,
          "INT32_MAX": 2 ** 31 - 1, "LLONG_MAX": 2 ** 63 - 1, "INT64_MAX": 2 ** 63 - 1, "ULLONG_MAX": 2 ** 64 - 1, "UINT64_MAX": 2 ** 64 - 1, "UINT_MAX": 2 ** 32 - 1}
def c_number(x):
    """value of a C integer constant with a sign, None when the constant has no type that holds it"""
    if x in LIMITS: return LIMITS[x]
    m = re.fullmatch(r"\(?(-?)(\d+)([uUlL]*)\)?", x)
    if not m: raise Und("constant " + x)
    v = int(m.group(2)); u = "u" in m.group(3).lower()
    if len(m.group(2)) > 1 and m.group(2)[0] == "0": raise Bad("is an octal constant")
    if v > (2 ** 64 if u else 2 ** 63) - 1: return None
    if not m.group(1): return v
    return (-v) % 2 ** 64 if u else -v
FSVAL = {"Int32.MinValue": -2 ** 31, "Int64.MinValue": -2 ** 63, "Int16.MinValue": -2 ** 15, "SByte.MinValue": -2 ** 7, "Int32.MaxValue": 2 ** 31 - 1, "Int64.MaxValue": 2 ** 63 - 1, "UInt32.MaxValue": 2 ** 32 - 1, "UInt64.MaxValue": 2 ** 64 - 1}
def fs_text(e, i):
    """the text an expression over the number i gives: if .. then .. else, sprintf, string concatenation, interpolation"""
    e = re.sub(r"//[^\n]*", "", e).strip()
    while e.startswith("(") and e.endswith(")") and e.count("(") == e.count(")") and ")" not in e[1:-1].split("(")[0]: e = e[1:-1].strip()
    m = re.match(r"if\s+i\s*(=|<>|<=|>=|<|>)\s*\(?\s*(?:BigInteger\s*\(?\s*([\w.]+)\s*\)?|(-?\d+)I)\s*\)?\s+then\s+([\s\S]*?)\s+else\s+([\s\S]*)$", e)
    if m:
        if m.group(2) and m.group(2).replace("System.", "") not in FSVAL: raise Und("number " + m.group(2))
        w = FSVAL[m.group(2).replace("System.", "")] if m.group(2) else int(m.group(3))
        c = {"=": i == w, "<>": i != w, "<=": i <= w, ">=": i >= w, "<": i < w, ">": i > w}[m.group(1)]
        return fs_text(m.group(4) if c else m.group(5), i)
    m = re.fullmatch(r'sprintf\s+"([^"%]*)%[sOA]([^"%]*)"\s+\(?\s*i(?:\.ToString\s*\(\))?\s*\)?', e)
    if m: return m.group(1) + str(i) + m.group(2)
    m = re.fullmatch(r'\$"([^"{}]*)\{i(?:\.ToString\s*\(\))?\}([^"{}]*)"', e)
    if m: return m.group(1) + str(i) + m.group(2)
    if re.fullmatch(r'\(?i\.ToString\s*\(\s*\)\)?|string\s+i', e): return str(i)
    m = re.fullmatch(r'"([^"\\]*)"', e)
    if m: return m.group(1)
    m = re.fullmatch(r'(.+?)\s*\+\s*"([^"\\]*)"', e)
    if m: return fs_text(m.group(1), i) + m.group(2)
    raise Und("expression")
def member(t, name):
    m = re.search(r"\n([ \t]*)override\s+\w+\.%s\b[^\n=]*(?:\n[^\n=]*)??=([\s\S]*?)(?=\n\1(?:override|member|interface)\b|\Z)" % name, t)
    return re.sub(r"//[^\n]*", "", m.group(2)) if m else None
def numbers(rep, n):
    f = "StgC/LangGeneric_c.fs"; b = member(fs(f), "intValueToString")
    if b is None: n["undecided: intValueToString"] += 1
    else:
        rows = [m for m in re.finditer(r"\|\s*(?:[\w.]*\.)?ASN1SCC_(\w+)\s*(?:_|\([^)]*\))?\s*(->)?", b)]
        todo = []
        for k, m in enumerate(rows):
            todo.append(m.group(1))
            if not m.group(2): continue
            e = b[m.end():rows[k + 1].start() if k + 1 < len(rows) else len(b)]
            for c in todo:
                if c not in RANGES: continue
                lo, hi = RANGES[c]
                try:
                    for v in sorted({lo, lo + 1, hi, hi - 1, 0, 1, 10, 8, 127, 128, lo // 2, hi // 2 + 1}):
                        if not lo <= v <= hi: continue
                        n["numbers"] += 1; x = fs_text(e, v); g = c_number(x)
                        if g != v: rep.violation("c|intValueToString|%s" % c, "the value %d of an %s component becomes the C constant %s, %s" % (v, c, x, "which no type holds" if g is None else "whose value is %d" % g), f); break
                except Und: n["undecided: integer constant"] += 1
                except Bad as x: rep.violation("c|intValueToString|%s" % c, "the value %d of an %s component %s" % (v, c, x), f)
            todo = []
    f = "CommonTypes/FsUtils.fs"; m = re.search(r"\bdoubleParseString\s*=\s*\"(\w)(\d*)\"", fs(f))
    if m and m.group(1).upper() in "EFG" and m.group(2):
        n["numbers"] += 1; d = int(m.group(2)) + (m.group(1).upper() == "E")
        if m.group(1).upper() == "F" or d < 17: rep.violation("fs|double|digits", "REAL values are written with the format %s%s: fewer than the 17 significant digits a double needs to be read back as itself" % m.groups(), f)
    else: n["undecided: doubleParseString"] += 1
    for lang, f in (("c", "StgC/LangGeneric_c.fs"), ("a", "StgAda/LangGeneric_a.fs")):
        b = member(fs(f), "initializeString")
        if b is None: n["undecided: initializeString"] += 1; continue
        for arm, code in (("Some", 65), ("Some", 48), ("None", None)):
            q = re.search(r"\|\s*%s\b\s*(\w*)\s*->\s*sprintf\s+\"([^\"]*)\"([^\n]*)" % arm, b)
            if not q: n["undecided: initializeString"] += 1; continue
            for size in (1, 2, 7):
                try:
                    args = []
                    for a in re.findall(r"\((?:[^()]|\([^()]*\))*\)|\w+", q.group(3)):
                        a = re.sub(r"\b(?:int|char|byte)\b", "", a)
                        if q.group(1): a = re.sub(r"\b%s\b" % q.group(1), str(code), a)
                        a = re.sub(r"\bstringSize\b", str(size), a)
                        if not re.fullmatch(r"[\d\s()+*-]+", a): raise Und("argument")
                        args.append(eval(a))
                    if len(args) != len(re.findall(r"%[a-zA-Z]", q.group(2))): raise Und("arguments")
                    x = re.sub("%i", "%d", q.group(2)) % tuple(chr(v) if k == "c" else v for v, k in zip(args, re.findall(r"%([a-zA-Z])", q.group(2))))
                    n["numbers"] += 1; want = [code or 0] * size + [0]
                    if lang == "c": got = build(arr(size + 1), c_node(x))
                    else:
                        x2 = re.sub(r"(\d+)\s*\.\.\s*(\d+)\s*=>\s*([^,)]+)", lambda g: ", ".join("%d => %s" % (k, g.group(3)) for k in range(int(g.group(1)), int(g.group(2)) + 1)), x)
                        x2 = re.sub(r"'(.)'", lambda g: str(ord(g.group(1))), x2)
                        got = ada_build(arr(size + 1), ada_expr(x2))
                    got = [ord(v) if isinstance(v, str) and len(v) == 1 else ord(v[1]) if isinstance(v, str) and re.fullmatch(r"'.'", v) else 0 if isinstance(v, str) and v.upper().endswith("NUL") else v for v in got]
                    if got != want: rep.violation("%s|initializeString|%s" % (lang, arm), "the initial value of a string of %d characters is %s (%s)" % (size, got, x), f); break
                except Und: n["undecided: initializeString"] += 1; break
                except Bad as e: rep.violation("%s|initializeString|%s" % (lang, arm), "the initial value of a string of %d characters %s: %s" % (size, e, x), f); break

def t13(rep, tier):
    if ctempl.c_parser is None: raise AnalysisError("pycparser is not available")
    n = collections.Counter(); jobs = []
    for lang in ("c", "a"): jobs += [literals(rep, lang), initials(rep, lang)]
    quoting(rep, n); counts(rep, n); numbers(rep, n)
    und = collections.Counter()
    for j in jobs: und.update(j.und)
    und.update({k: v for k, v in n.items() if k.startswith("undecided")})
    rep.cov["rule"] = "the object every literal and initialiser builds on the values enumerated is the value, member by member, within the declared sizes"
    rep.cov["cases"] = sum(j.n for j in jobs); rep.cov["contents_of_strings"] = n["string contents"]; rep.cov["counts_passed"] = n["counts"]; rep.cov["numbers"] = n["numbers"]
    rep.cov["templates"] = {"%s/%s" % (j.lang, j.gn): sorted(j.decided) for j in jobs}
    rep.cov["undecided"] = dict(und)
