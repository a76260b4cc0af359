"""Semantics of small rendered templates (validity checks, comparisons): an interpreter of the C text over placeholder operands,
and a translation of the Ada text into the same form."""
import re
import ctempl
from ctempl import c_ast

class Und(Exception): pass
class Bad(Exception): pass
class _Ret(Exception):
    def __init__(s, v): s.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass

CONST = {"TRUE": 1, "FALSE": 0, "true": 1, "false": 0, "NULL": 0}

class Sem:
    """mem: place -> int, str or list; calls: name -> f(sem, argument expressions)"""
    def __init__(s, mem, calls):
        s.mem, s.calls, s.n, s.deref = dict(mem), calls, 0, set()
    def key(s, e):
        if isinstance(e, c_ast.ID): return e.name
        if isinstance(e, c_ast.Cast): return s.key(e.expr)
        if isinstance(e, c_ast.UnaryOp) and e.op in ("*", "&"):
            k = s.key(e.expr)
            return None if k is None else "*" + k if e.op == "*" and k == "pErrCode" else k
        if isinstance(e, c_ast.StructRef):
            k = s.key(e.name); return None if k is None else k + "." + e.field.name
        return None
    def truth(s, e):
        v = s.ev(e)
        if v is None: raise Und("no truth value")
        return bool(v) if isinstance(v, int) else True
    def ev(s, e):
        s.n += 1
        if s.n > 20000: raise Bad("does not come to an end")
        if isinstance(e, c_ast.Constant):
            if e.type == "char": return ord(eval(e.value)) if e.value != r"'\0'" else 0
            if e.type == "string": return eval(e.value)
            try: return int(e.value.rstrip("uUlL"), 0)
            except ValueError: raise Und("constant " + e.value)
        if isinstance(e, c_ast.Cast): return s.ev(e.expr)
        if isinstance(e, c_ast.TernaryOp): return s.ev(e.iftrue if s.truth(e.cond) else e.iffalse)
        if isinstance(e, c_ast.ExprList):
            for x in e.exprs: v = s.ev(x)
            return v
        if isinstance(e, c_ast.BinaryOp):
            if e.op == "&&": return int(s.truth(e.left) and s.truth(e.right))
            if e.op == "||": return int(s.truth(e.left) or s.truth(e.right))
            a, b = s.ev(e.left), s.ev(e.right)
            if e.op in ("==", "!="):
                return int((a == b) == (e.op == "=="))
            if e.op == "+" and isinstance(a, str) and isinstance(b, str): return a + b
            if not (isinstance(a, int) and isinstance(b, int)): raise Und("operands of " + e.op)
            if e.op in ("/", "%") and b == 0: raise Bad("division by zero")
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b, "<": lambda: int(a < b), "<=": lambda: int(a <= b),
                 ">": lambda: int(a > b), ">=": lambda: int(a >= b), "<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}.get(e.op)
            if f is None: raise Und("operator " + e.op)
            return f()
        if isinstance(e, c_ast.UnaryOp):
            if e.op == "!": return int(not s.truth(e.expr))
            if e.op == "-": return -s.ev(e.expr)
            if e.op == "+": return s.ev(e.expr)
            if e.op in ("p++", "++", "p--", "--"):
                k = s.key(e.expr); o = s.mem.get(k)
                if not isinstance(o, int): raise Und("step of " + str(k))
                s.mem[k] = o + (1 if "+" in e.op else -1); return o if e.op[0] == "p" else s.mem[k]
        if isinstance(e, c_ast.Assignment):
            v = s.ev(e.rvalue); k = s.key(e.lvalue)
            if e.op != "=":
                o = s.mem.get(k)
                if not isinstance(o, int) or not isinstance(v, int): raise Und("update of " + str(k))
                v = {"+=": o + v, "-=": o - v, "&=": o & v, "|=": o | v}.get(e.op)
                if v is None: raise Und("operator " + e.op)
            if k is None: raise Und("assigned place")
            s.mem[k] = v; return v
        if isinstance(e, c_ast.FuncCall):
            f = e.name.name if isinstance(e.name, c_ast.ID) else s.key(e.name)
            if f not in s.calls: raise Und("call of %s" % f)
            return s.calls[f](s, list(e.args.exprs) if e.args else [])
        if isinstance(e, c_ast.ArrayRef):
            a, i = s.ev(e.name), s.ev(e.subscript)
            if isinstance(a, str): a = [ord(c) for c in a] + [0]
            if not isinstance(a, list) or not isinstance(i, int): raise Und("array element")
            if not 0 <= i < len(a): raise Bad("element %d of %d is read" % (i, len(a)))
            return a[i]
        k = s.key(e)
        if k in s.mem: return s.mem[k]
        if k in CONST: return CONST[k]
        raise Und("value of %s" % k)
    def run(s, x):
        s.n += 1
        if x is None: return
        if isinstance(x, c_ast.Compound):
            for y in x.block_items or (): s.run(y)
        elif isinstance(x, c_ast.Decl):
            if x.init is not None and not isinstance(x.init, c_ast.InitList): s.mem[x.name] = s.ev(x.init)
        elif isinstance(x, c_ast.If):
            if s.truth(x.cond): s.run(x.iftrue)
            else: s.run(x.iffalse)
        elif isinstance(x, (c_ast.For, c_ast.While, c_ast.DoWhile)):
            if isinstance(x, c_ast.For) and x.init is not None: (s.run if isinstance(x.init, (c_ast.Decl, c_ast.DeclList)) else s.ev)(x.init)
            first = isinstance(x, c_ast.DoWhile)
            while first or x.cond is None or s.truth(x.cond):
                first = False
                try: s.run(x.stmt)
                except _Brk: break
                except _Cont: pass
                if isinstance(x, c_ast.For) and x.next is not None: s.ev(x.next)
        elif isinstance(x, c_ast.Switch):
            v = s.ev(x.cond); on = False
            items = x.stmt.block_items if isinstance(x.stmt, c_ast.Compound) else [x.stmt]
            def labels(y):
                while isinstance(y, (c_ast.Case, c_ast.Default)):
                    yield y; y = y.stmts[0] if y.stmts else None
            start = next((k for k, y in enumerate(items) for z in labels(y) if isinstance(z, c_ast.Case) and s.ev(z.expr) == v), None)
            if start is None: start = next((k for k, y in enumerate(items) for z in labels(y) if isinstance(z, c_ast.Default)), None)
            if start is None: return
            try:
                for y in items[start:]: s.run(y)
            except _Brk: pass
        elif isinstance(x, (c_ast.Case, c_ast.Default)):
            for y in x.stmts or (): s.run(y)
        elif isinstance(x, c_ast.Return): raise _Ret(None if x.expr is None else s.ev(x.expr))
        elif isinstance(x, c_ast.Break): raise _Brk()
        elif isinstance(x, c_ast.Continue): raise _Cont()
        elif isinstance(x, (c_ast.EmptyStatement, c_ast.Typedef)): pass
        elif isinstance(x, c_ast.DeclList):
            for y in x.decls: s.run(y)
        elif isinstance(x, c_ast.Cast) and isinstance(x.expr, c_ast.ID): pass          # (void)x;
        else: s.ev(x)
    def go(s, body):
        try: s.run(body)
        except _Ret as r: return r.v
        except (_Brk, _Cont): raise Und("jump")

def c_body(text, unit=None):
    """block of a rendering; unit: name of the function to take"""
    t = ctempl.preproc(ctempl.strip_comments(text))
    if unit is None:
        try: return ctempl.parse_c(t, "void F(void) { %s }", ctempl.TYPES).ext[-1].body
        except Exception as e: raise Und("text: %s" % str(e)[:80])
    try: ast = ctempl.parse_c(t, "%s", list(ctempl.TYPES) + ["T"])
    except Exception as e: raise Und("text: %s" % str(e)[:80])
    for d in ast.ext:
        if isinstance(d, c_ast.FuncDef) and d.decl.name == unit: return d.body
    raise Und("function %s" % unit)

def ada2c(text, result=True):
    """Ada statements or one function as C; result: the variable ret is the result record"""
    t = re.sub(r"--[^\n]*", "", text)
    t = re.sub(r"(?i)\bpragma\b[^;]*;", "", t)
    if re.search(r";\s*;", t): raise Bad("has an empty statement (double semicolon), which Ada does not allow")
    t = t.lower()
    t = re.sub(r"\band\s+then\b", "&&", t); t = re.sub(r"\bor\s+else\b", "||", t)
    decl = ""
    m = re.search(r"\bfunction\s+(\w+).*?\breturn\s+[\w.]+\s*(?:with\b.*?)?\bis\b(.*?)\bbegin\b(.*)\bend\s+\w*\s*;", t, re.S) or re.search(r"\bprocedure\s+(\w+).*?\bis\b(.*?)\bbegin\b(.*?)\bend\s+\w+\s*;", t, re.S)
    if m:
        for d in m.group(2).split(";"):
            q = re.match(r"\s*(\w+)\s*:\s*(?:constant\s+)?([\w.]+)\s*(?::=\s*(.*))?$", d, re.S)
            if q and q.group(3): decl += "%s := %s;\n" % (q.group(1), q.group(3).strip())
        t = decl + m.group(3)
    t = re.sub(r"\bresult\b", "ret", t)
    t = re.sub(r"\bret\s*:=\s*[\w.]*asn1_result'\(\s*success\s*=>\s*(.*?),\s*errorcode\s*=>\s*([^;]*?)\)\s*;", r"ret.success := \1; ret.errorcode := \2;", t, flags=re.S)
    if result:
        for q in re.findall(r"\bret\s*:=\s*([^;]*);", t):
            if not re.match(r"\s*\w*_isvalid\s*\(", q): raise Bad("assigns the boolean '%s' to the result record" % " ".join(q.split())[:60])
    t = re.sub(r"\bret\.success\b", "ret", t); t = re.sub(r"\bret\.errorcode\b", "@ERR@", t)
    t = re.sub(r"\(\s*if\b(.*?)\bthen\b(.*?)\belse\b(.*?)\)", r"((\1) ? (\2) : (\3))", t)
    t = re.sub(r"([\w.]+)\s*\(\s*1\s*\.\.\s*([\w.]+)\s*\)", r"slice(\1, \2)", t)
    t = re.sub(r"[\w.]+'first\b", "1", t)
    t = re.sub(r"\bend\s+(if|loop|case)\s*;", "}", t)
    t = re.sub(r"\bfor\s+(\w+)\s+in\s+(.*?)\.\.(.*?)\bloop\b", r"for (\1 @A@ \2; \1 <= \3; \1++) {", t)
    t = re.sub(r"\belsif\b(.*?)\bthen\b", r"} else if (\1) {", t, flags=re.S)
    t = re.sub(r"\bif\b(?!\s*\()([^;{}]*?)\bthen\b|\bif\b([^;{}]*?)\bthen\b", lambda m: "if (%s) {" % (m.group(1) or m.group(2)), t, flags=re.S)
    t = re.sub(r"(?<!\} )\belse\b", "} else {", t)
    t = re.sub(r"\bwhile\b(.*?)\bloop\b", r"while (\1) {", t, flags=re.S)
    t = re.sub(r"\bcase\b(.*?)\bis\b", r"switch (\1) {", t, flags=re.S)
    t = re.sub(r"\bwhen\s+others\s*=>", "break; default:", t)
    t = re.sub(r"\bwhen\b(.*?)=>", r"break; case \1:", t, flags=re.S)
    t = re.sub(r"\bnull\s*;", ";", t)
    t = t.replace(":=", "@A@").replace("/=", "!=").replace(">=", "@GE@").replace("<=", "@LE@").replace("!=", "@NE@")
    t = t.replace("=", "==").replace("@A@", "=").replace("@GE@", ">=").replace("@LE@", "<=").replace("@NE@", "!=")
    t = re.sub(r"\band\b", "&&", t); t = re.sub(r"\bor\b", "||", t); t = re.sub(r"\bnot\b", "!", t); t = re.sub(r"\bmod\b", "%", t)
    return t.replace("@ERR@", "*pErrCode")

def body(lang, text, unit=None, result=True):
    if lang == "c": return c_body(text, unit)
    return c_body(ada2c(text, result))
