"""Parser for textual LLVM IR (clang 18, opaque pointers) into a small in-memory program for the dataflow engines."""
import re, os
from common import *

CLANG = "clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
OPT = "opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"
STUBS = os.path.join(VERIF, "lib", "stubinc")

UBSAN = "signed-integer-overflow,shift,integer-divide-by-zero"

def compile_ll(workdir, src, out=None, defines=(), target=None, ubsan=True, incs=(), mem2reg=True, extra=(), cxx=False):
    """source -> optimised-for-reading IR text. No code is run; only the front end and mem2reg are used."""
    out = out or os.path.join(workdir, os.path.basename(src) + ".ll")
    cmd = [CLANG, "-S", "-emit-llvm", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-w", "-ffreestanding", "-nostdlibinc", "-isystem", STUBS, "-idirafter", "/usr/include", "-idirafter", "/usr/include/x86_64-linux-gnu"]
    if target: cmd += ["--target=" + target]
    if ubsan: cmd += ["-fsanitize=" + UBSAN, "-fsanitize-trap=all"]
    cmd += ["-D" + d for d in defines] + ["-I" + i for i in (list(incs) + [RT])] + list(extra) + [src, "-o", out]
    rc, o = run(cmd, timeout=120)
    if rc: raise AnalysisError("front end rejects %s:\n%s" % (src, o[-1500:]))
    if mem2reg:
        rc, o = run([OPT, "-S", "-passes=mem2reg", out, "-o", out + ".m"], timeout=120)
        if rc: raise AnalysisError("mem2reg failed on %s:\n%s" % (src, o[-1500:]))
        out = out + ".m"
    return open(out).read()

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "els", "size", "align", "packed")
    def __init__(self, k, **kw):
        self.k = k
        for a, b in kw.items(): setattr(self, a, b)
    def __repr__(self):
        return {"int": lambda: "i%d" % self.w, "ptr": lambda: "ptr", "arr": lambda: "[%d x %r]" % (self.n, self.el)}.get(self.k, lambda: self.k)()

class Module:
    def __init__(self):
        self.funcs, self.globals, self.types, self.decls = {}, {}, {}, {}
        self.meta, self.le, self.psize, self.i64a, self.f64a = {}, True, 8, 8, 8
        self._ty = {}

    def parse_type(self, s):
        s = s.strip()
        t = self._ty.get(s)
        if t is None:
            t, rest = self._type(s)
            if rest.strip(): raise AnalysisError("type syntax: %r" % s)
            self._ty[s] = t
        return t

    def _type(self, s):
        s = s.lstrip()
        m = re.match(r"i(\d+)", s)
        if m:
            w = int(m.group(1)); b = (w + 7) // 8
            b2 = 1
            while b2 < b: b2 *= 2
            al = min(b2, self.i64a if b2 >= 8 else b2)
            return Ty("int", w=w, size=b2, align=al), s[m.end():]
        if s.startswith("ptr"): return Ty("ptr", w=self.psize * 8, size=self.psize, align=self.psize), s[3:]
        if s.startswith("void"): return Ty("void", size=0, align=1), s[4:]
        if s.startswith("double"): return Ty("fp", w=64, size=8, align=self.f64a), s[6:]
        if s.startswith("float"): return Ty("fp", w=32, size=4, align=4), s[5:]
        if s.startswith("x86_fp80"): return Ty("fp", w=80, size=16, align=16), s[8:]
        if s.startswith("metadata"): return Ty("meta", size=0, align=1), s[8:]
        if s.startswith("label"): return Ty("label", size=0, align=1), s[5:]
        if s.startswith("["):
            m = re.match(r"\[\s*(\d+)\s*x\s*", s)
            el, rest = self._type(s[m.end():])
            rest = rest.lstrip()[1:]
            n = int(m.group(1))
            return Ty("arr", n=n, el=el, size=n * el.size, align=el.align), rest
        packed = s.startswith("<{")
        if s.startswith("{") or packed:
            rest = s[2 if packed else 1:].lstrip()
            els = []
            while not rest.startswith("}"):
                e, rest = self._type(rest); els.append(e)
                rest = rest.lstrip()
                if rest.startswith(","): rest = rest[1:].lstrip()
            rest = rest[1:]
            if packed: rest = rest.lstrip()[1:]
            return self._struct(els, packed), rest
        m = re.match(r'%(?:"[^"]+"|[\w.$-]+)', s)
        if m:
            name = m.group(0)
            body = self.types.get(name)
            if body is None: raise AnalysisError("unknown type " + name)
            if isinstance(body, str):
                if body == "opaque":
                    body = Ty("struct", els=[], size=0, align=1); body.packed = False
                else: body = self.parse_type(body)
                self.types[name] = body
            return body, s[m.end():]
        raise AnalysisError("type syntax: %r" % s[:60])

    def _struct(self, els, packed):
        off, al, offs = 0, 1, []
        for e in els:
            a = 1 if packed else e.align
            off = (off + a - 1) // a * a
            offs.append(off); off += e.size; al = max(al, a)
        size = (off + al - 1) // al * al
        t = Ty("struct", els=list(zip(els, offs)), size=size, align=al)
        t.packed = packed
        return t

class Func:
    def __init__(self, name): 
        self.name, self.params, self.blocks, self.order, self.ret = name, [], {}, [], None
        self.line, self.file = 0, ""

def split_top(s, sep=","):
    out, d, cur, q = [], 0, [], False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in "([{<": d += 1
            elif ch in ")]}>": d -= 1
            elif ch == sep and d == 0:
                out.append("".join(cur).strip()); cur = []; continue
        cur.append(ch)
    t = "".join(cur).strip()
    if t: out.append(t)
    return out

ATTR = {"noundef", "zeroext", "signext", "nonnull", "nocapture", "readonly", "writeonly", "noalias", "immarg", "returned", "inreg", "dso_local", "internal", "private",
        "unnamed_addr", "local_unnamed_addr", "hidden", "linkonce_odr", "weak", "external", "constant", "global", "inbounds", "nuw", "nsw", "exact", "volatile", "tail", "notail", "musttail", "readnone", "disjoint", "nneg"}

def strip_attrs(s):
    """removes parameter attributes (with arguments) between a type and a value"""
    s = re.sub(r"\b(align|dereferenceable|dereferenceable_or_null|sret|byval)\s*(\([^()]*(\([^()]*\))?[^()]*\)|\d+)", " ", s)
    return re.sub(r"\b(noundef|zeroext|signext|nonnull|nocapture|readonly|writeonly|noalias|immarg|returned|inreg|readnone|dead_on_unwind|writable|captures|nofree|nest)\b", " ", s)

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"}

def parse_module(text):
    M = Module()
    m = re.search(r'target datalayout = "([^"]*)"', text)
    dl = m.group(1) if m else "e"
    M.le = not dl.startswith("E")
    mp = re.search(r"(?:^|-)p:(\d+)", dl)
    M.psize = int(mp.group(1)) // 8 if mp else 8
    mi = re.search(r"-i64:(\d+)", dl); M.i64a = int(mi.group(1)) // 8 if mi else 4
    mf = re.search(r"-f64:(\d+)", dl); M.f64a = int(mf.group(1)) // 8 if mf else 8
    lines = text.split("\n")
    for l in lines:
        if l.startswith("%"):
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = type (.*)$', l)
            if m: M.types[m.group(1)] = m.group(2).strip()
        elif l.startswith("!"):
            m = re.match(r"!(\d+) = (.*)$", l)
            if m: M.meta[int(m.group(1))] = m.group(2)
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("@"):
            m = re.match(r'(@(?:"[^"]+"|[\w.$-]+)) = (.*)$', l)
            name, rest = m.group(1), m.group(2)
            rest = re.sub(r",\s*!dbg !\d+.*$", "", rest)
            rest = re.sub(r",\s*(align \d+|section \"[^\"]*\"|comdat.*)$", "", rest); rest = re.sub(r",\s*align \d+$", "", rest)
            rest = re.sub(r",\s*(comdat.*|section .*)$", "", rest)
            m2 = re.search(r"\b(global|constant)\b(.*)$", rest)
            if m2:
                body = m2.group(2).strip()
                ty, tail = M._type(body)
                M.globals[name] = dict(const=m2.group(1) == "constant", ty=ty, init=tail.strip() or None, internal="internal" in rest[:m2.start()] or "private" in rest[:m2.start()], external=bool(re.search(r"\bexternal\b", rest[:m2.start()])))
        elif l.startswith("declare "):
            m = re.search(r"(@(?:\"[^\"]+\"|[\w.$-]+))\(", l)
            if m: M.decls[m.group(1)] = l
        elif l.startswith("define "):
            m = re.search(r"(@(?:\"[^\"]+\"|[\w.$-]+))\(", l)
            F = Func(m.group(1)[1:].strip('"'))
            head = l[7:m.start()]
            head = strip_attrs(re.sub(r"\b(dso_local|internal|hidden|linkonce_odr|weak_odr|weak|private|local_unnamed_addr|unnamed_addr|fastcc)\b", " ", head)).strip()
            F.ret = M.parse_type(head)
            F.internal = " internal " in l
            # parameters
            d, k = 1, m.end()
            while d:
                if l[k] == "(": d += 1
                elif l[k] == ")": d -= 1
                k += 1
            F.varargs = False
            for p in split_top(l[m.end():k - 1]):
                if p == "...": F.varargs = True; continue
                ty, rest = M._type(p)
                F.params.append((ty, strip_attrs(rest).strip()))
            mm = re.search(r"!dbg !(\d+)", l)
            if mm:
                s = M.meta.get(int(mm.group(1)), "")
                ml = re.search(r"line: (\d+)", s); F.line = int(ml.group(1)) if ml else 0
                mf_ = re.search(r"file: !(\d+)", s)
                if mf_:
                    fm = re.search(r'filename: "([^"]*)"', M.meta.get(int(mf_.group(1)), "")); F.file = fm.group(1) if fm else ""
            i += 1
            cur = None
            implicit = sum(1 for _, n in F.params if re.match(r"%\d+$", n))
            buf = []
            while lines[i] != "}":
                t = lines[i]
                if t and not t.startswith(" ") and not t.startswith(";") and not t.startswith("}"):
                    lab = re.match(r'((?:"[^"]+"|[\w.$-]+)):', t)
                    if lab:
                        cur = "%" + lab.group(1); F.blocks[cur] = []; F.order.append(cur)
                elif t.strip() and not t.strip().startswith(";"):
                    t = t.strip()
                    if t.startswith("#dbg"): i += 1; continue
                    while t.startswith("switch") and "]" not in t:
                        i += 1; t += " " + lines[i].strip()
                    if cur is None:
                        cur = "%" + str(implicit); F.blocks[cur] = []; F.order.append(cur)
                    F.blocks[cur].append(t)
                i += 1
            M.funcs[F.name] = F
        i += 1
    for F in M.funcs.values():
        for b in F.order:
            F.blocks[b] = [x for x in (parse_instr(M, t) for t in F.blocks[b]) if x is not None]
    return M

def const_value(M, ty, s):
    """operand text -> operand description"""
    s = s.strip()
    if s.startswith("%"): return ("r", s)
    if s in ("true",): return ("c", 1)
    if s in ("false", "null", "zeroinitializer", "none"): return ("c", 0) if ty.k in ("int", "ptr", "fp") else ("z", ty)
    if s in ("undef", "poison"): return ("u",)
    if s.startswith("@"): return ("g", s)
    if ty.k == "int" and re.match(r"-?\d+$", s): return ("c", int(s) & ((1 << ty.w) - 1))
    if ty.k == "fp":
        import struct
        if s.startswith("0x"):
            d = int(s[2:].lstrip("KML"), 16)
            if ty.w == 32: return ("c", struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", d))[0]))[0])
            return ("c", d)
        v = float(s)
        return ("c", struct.unpack("<I", struct.pack("<f", v))[0] if ty.w == 32 else struct.unpack("<Q", struct.pack("<d", v))[0])
    m = re.match(r"getelementptr\s+(?:inbounds\s+)?\((.*)\)$", s)
    if m:
        parts = split_top(m.group(1))
        bt = M.parse_type(parts[0])
        pt, rest = M._type(parts[1])
        idx = []
        for p in parts[2:]:
            it, r = M._type(p); idx.append((it, const_value(M, it, r)))
        return ("gep", bt, const_value(M, pt, rest), idx)
    m = re.match(r"(ptrtoint|inttoptr|bitcast|zext|sext|trunc)\s*\((.*) to (.*)\)$", s)
    if m:
        t, rest = M._type(m.group(2))
        return ("cast", m.group(1), t, const_value(M, t, rest), M.parse_type(m.group(3)))
    m = re.match(r"(add|sub|mul|and|or|xor)\s*\((.*)\)$", s)
    if m:
        a, b = split_top(m.group(2))
        t, ra = M._type(a); t2, rb = M._type(b)
        return ("cbin", m.group(1), t, const_value(M, t, ra), const_value(M, t, rb))
    if s.startswith("c\"") or s.startswith("[") or s.startswith("{") or s.startswith("<{"): return ("agg", ty, s)
    raise AnalysisError("operand syntax: %s %r" % (ty, s[:80]))

def parse_init(M, ty, s):
    """initializer text -> nested description: ('bytes',..)"""
    s = s.strip()
    if s.startswith('c"'):
        b, k, body = [], 0, s[2:-1]
        while k < len(body):
            if body[k:k + 2] == "\\\\": b.append(92); k += 2
            elif body[k] == "\\": b.append(int(body[k + 1:k + 3], 16)); k += 3
            else: b.append(ord(body[k])); k += 1
        return ("bytes", b)
    if s.startswith("[") or s.startswith("{") or s.startswith("<{"):
        inner = s[2:-2] if s.startswith("<{") else s[1:-1]
        out = []
        for p in split_top(inner):
            t, rest = M._type(p)
            out.append((t, parse_init(M, t, rest)))
        return ("list", out)
    return ("val", const_value(M, ty, s))

def typed(M, s):
    t, rest = M._type(s)
    return t, const_value(M, t, strip_attrs(rest))

def parse_instr(M, t):
    dbg = 0
    m = re.search(r"!dbg !(\d+)", t)
    if m:
        dbg = int(m.group(1))
    t = re.sub(r",\s*![\w.]+ !\d+.*$", "", t)
    t = re.sub(r"\s+#\d+$", "", t)
    dest = None
    m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', t)
    if m: dest, t = m.group(1), m.group(2)
    op, _, rest = t.partition(" ")
    while op in ("tail", "notail", "musttail"): op, _, rest = rest.partition(" ")
    if op == "call":
        if "@llvm.dbg" in rest or "@llvm.lifetime" in rest: return None
        rest = re.sub(r"^(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|fastcc|ccc)\s+", "", rest)
        m = re.search(r'((?:@|%)(?:"[^"]+"|[\w.$-]+))\(', rest)
        if m is None: raise AnalysisError("call syntax: " + t)
        head = strip_attrs(rest[:m.start()]).strip()
        # variadic prototypes: i32 (ptr, ...)
        head = re.sub(r"\([^()]*\)$", "", head).strip()
        ret = M.parse_type(head)
        d, k = 1, m.end()
        while d:
            if rest[k] == "(": d += 1
            elif rest[k] == ")": d -= 1
            k += 1
        args = []
        for a in split_top(rest[m.end():k - 1]):
            if a.startswith("metadata"): args.append((None, None)); continue
            args.append(typed(M, a))
        return ("call", dest, ret, m.group(1), args, dbg)
    if op in BIN:
        rest = re.sub(r"^((nuw|nsw|exact|disjoint|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)+", "", rest)
        a, b = split_top(rest)
        ty, av = typed(M, a)
        return ("bin", dest, op, ty, av, const_value(M, ty, b), dbg)
    if op in CAST:
        rest = re.sub(r"^((nneg|nuw|nsw)\s+)+", "", rest)
        k = rest.rindex(" to ")
        ty, av = typed(M, rest[:k])
        return ("cast", dest, op, ty, av, M.parse_type(rest[k + 4:]), dbg)
    if op in ("icmp", "fcmp"):
        rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|samesign)\s+)+", "", rest)
        pred, _, rest = rest.partition(" ")
        a, b = split_top(rest)
        ty, av = typed(M, a)
        return (op, dest, pred, ty, av, const_value(M, ty, b), dbg)
    if op == "load":
        rest = re.sub(r"^volatile\s+", "", rest)
        p = split_top(rest)
        return ("load", dest, M.parse_type(p[0]), typed(M, p[1])[1], dbg)
    if op == "store":
        vol = rest.startswith("volatile")
        rest = re.sub(r"^volatile\s+", "", rest)
        p = split_top(rest)
        ty, v = typed(M, p[0])
        return ("store", None, ty, v, typed(M, p[1])[1], dbg)
    if op == "getelementptr":
        rest = re.sub(r"^((inbounds|nuw|nusw)\s+)+", "", rest)
        p = split_top(rest)
        return ("gep", dest, M.parse_type(p[0]), typed(M, p[1])[1], [typed(M, x) for x in p[2:]], dbg)
    if op == "br":
        p = split_top(rest)
        if len(p) == 1: return ("jmp", None, p[0].split()[1], dbg)
        return ("br", None, typed(M, p[0])[1], p[1].split()[1], p[2].split()[1], dbg)
    if op == "switch":
        m = re.match(r"(.*?), label (\S+) \[(.*)\]", rest)
        ty, v = typed(M, m.group(1))
        cases = [(int(a) & ((1 << ty.w) - 1), b) for a, b in re.findall(r"i\d+ (-?\d+), label (\S+)", m.group(3))]
        return ("switch", None, ty, v, m.group(2), cases, dbg)
    if op == "ret":
        if rest.strip() == "void": return ("ret", None, None, None, dbg)
        ty, v = typed(M, rest)
        return ("ret", None, ty, v, dbg)
    if op == "phi":
        ty, r = M._type(rest)
        inc = re.findall(r"\[\s*([^\[\]]*?(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\s*,\s*(%(?:\"[^\"]+\"|[\w.$-]+))\s*\]", r)
        return ("phi", dest, ty, {b: const_value(M, ty, v) for v, b in inc}, dbg)
    if op == "select":
        rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)+", "", rest)
        p = split_top(rest)
        ty, a = typed(M, p[1])
        return ("select", dest, typed(M, p[0])[1], ty, a, typed(M, p[2])[1], dbg)
    if op == "alloca":
        p = split_top(rest)
        n = 1; nv = None
        if len(p) > 1 and not p[1].startswith("align"):
            nt, nv = typed(M, p[1])
        return ("alloca", dest, M.parse_type(p[0]), nv, dbg)
    if op == "extractvalue":
        p = split_top(rest)
        ty, a = typed(M, p[0])
        return ("extract", dest, ty, a, [int(x) for x in p[1:]], dbg)
    if op == "insertvalue":
        p = split_top(rest)
        ty, a = typed(M, p[0]); t2, b = typed(M, p[1])
        return ("insert", dest, ty, a, t2, b, [int(x) for x in p[2:]], dbg)
    if op == "fneg":
        ty, a = typed(M, rest)
        return ("fneg", dest, ty, a, dbg)
    if op == "freeze":
        ty, a = typed(M, rest)
        return ("freeze", dest, ty, a, dbg)
    if op == "unreachable": return ("unreachable", None, dbg)
    if op == "fence": return None
    raise AnalysisError("instruction not understood: " + t[:120])
