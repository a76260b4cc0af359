"""Upper bounds of lengths read from a message, over the statements of a rendered C decode template.

Forward analysis with linear facts (sum of names + constant >= 0).  A fact comes from a branch condition, from the range
arguments of a constrained decode, from an assignment, or from the bound of a counting loop; it is dropped when a name in
it changes and kept across a join only when both sides have it.  Facts that hold only if the last step succeeded are kept
apart and used where `ret` has been tested.  A length is checked where it is used: number of octets or bits read into an
array, subscript of a terminator, limit of a loop that decodes items, value stored as the element count."""
from ctempl import c_ast
NARROW = {"int", "asn1SccSint32", "int32_t", "short", "asn1SccSint16", "asn1SccSint8", "int16_t", "int8_t", "char", "byte", "uint8_t", "asn1SccUint8", "uint16_t", "asn1SccUint16", "asn1SccUint32", "uint32_t"}
UNSIGNED = {"asn1SccUint", "asn1SccUint64", "uint64_t", "size_t"}
RANGED = {"BitStream_DecodeConstraintWholeNumber": (1, 2, 3), "BitStream_DecodeConstraintPosWholeNumber": (1, 2, 3)}
READS = {"BitStream_DecodeOctetString_no_length": (1, 2), "BitStream_ReadBits": (1, 2), "BitStream_ReadBits_nullterminated": None}

class L:
    """linear form: {name: coefficient}, constant"""
    __slots__ = ("c", "k")
    def __init__(s, c=None, k=0): s.c, s.k = {n: x for n, x in (c or {}).items() if x}, k
    def plus(s, o, f=1):
        c = dict(s.c)
        for n, x in o.c.items(): c[n] = c.get(n, 0) + f * x
        return L(c, s.k + f * o.k)
    def key(s): return (tuple(sorted(s.c.items())), s.k)
def typename(c):
    t = c.to_type
    try: return " ".join(t.type.type.names)
    except AttributeError: return "?"
def name(e):
    if isinstance(e, c_ast.ID): return e.name
    if isinstance(e, c_ast.UnaryOp) and e.op == "*": n = name(e.expr); return n and "*" + n
    if isinstance(e, c_ast.UnaryOp) and e.op == "&": return None
    if isinstance(e, c_ast.StructRef): n = name(e.name); return n and n + e.type + e.field.name
    return None
def lin(e, strict=False):
    """None when not linear, or (strict) when a narrowing conversion changes the value that is compared"""
    if isinstance(e, c_ast.Cast):
        if strict and typename(e) in NARROW and not isinstance(e.expr, c_ast.Constant): return None
        return lin(e.expr, strict)
    if isinstance(e, c_ast.Constant):
        try: return L(k=int(e.value.rstrip("uUlL"), 0))
        except ValueError: return None
    n = name(e)
    if n: return L({n: 1})
    if isinstance(e, c_ast.UnaryOp) and e.op == "-":
        a = lin(e.expr, strict); return a and L().plus(a, -1)
    if isinstance(e, c_ast.BinaryOp):
        a, b = lin(e.left, strict), lin(e.right, strict)
        if a is None or b is None: return None
        if e.op in "+-": return a.plus(b, 1 if e.op == "+" else -1)
        if e.op == "*":
            for x, y in ((a, b), (b, a)):
                if not y.c: return L({m: q * y.k for m, q in x.c.items()}, x.k * y.k)
    return None
def has_unsigned(e):
    while isinstance(e, c_ast.Cast):
        if typename(e) in UNSIGNED: return True
        e = e.expr
    return False
def conj(e):
    if isinstance(e, c_ast.BinaryOp) and e.op == "&&": return conj(e.left) + conj(e.right)
    return [e]
def disj(e):
    if isinstance(e, c_ast.BinaryOp) and e.op == "||": return disj(e.left) + disj(e.right)
    return [e]
FLIP = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
def facts(e, truth=True):
    """linear facts (>= 0) that hold when e is true / false; 'ret' stands for the facts of the result flag"""
    if isinstance(e, c_ast.UnaryOp) and e.op == "!": return facts(e.expr, not truth)
    if isinstance(e, c_ast.BinaryOp) and e.op == "&&": return facts(e.left, True) + facts(e.right, True) if truth else []
    if isinstance(e, c_ast.BinaryOp) and e.op == "||": return [] if truth else facts(e.left, False) + facts(e.right, False)
    if name(e): return [name(e)] if truth else []                       # a flag: what it stands for is looked up in the state
    if not isinstance(e, c_ast.BinaryOp) or e.op not in FLIP: return []
    op = e.op if truth else FLIP[e.op]
    a, b = lin(e.left, True), lin(e.right, True)
    if a is None or b is None: return []
    if op in ("==", "!="):
        for v, o in ((e.left, e.right), (e.right, e.left)):
            if name(o) in ("TRUE", "true", "FALSE", "false") and name(v):
                return [name(v)] if (name(o).upper() == "TRUE") == (op == "==") else []
        return [a.plus(b, -1), b.plus(a, -1)] if op == "==" else []
    lo, hi = (a, b) if op[0] == "<" else (b, a)
    f = hi.plus(lo, -1)
    if len(op) == 1: f = L(f.c, f.k - 1)
    out = [f]
    le = e.left if (e.op[0] == "<") == truth else e.right          # the side that is bounded from above
    if has_unsigned(le): out.append(lin(le))
    return out

def names_in(e):
    out = set()
    class V(c_ast.NodeVisitor):
        def visit_ID(s, n): out.add(n.name)
        def visit_StructRef(s, n):
            m = name(n)
            if m: out.add(m)
            s.generic_visit(n)
        def visit_UnaryOp(s, n):
            m = name(n)
            if m: out.add(m)
            s.generic_visit(n)
    if e is not None: V().visit(e)
    return out
def assigned(n):
    out = set()
    class V(c_ast.NodeVisitor):
        def visit_Assignment(s, x):
            m = name(x.lvalue)
            if m: out.add(m)
            s.generic_visit(x)
        def visit_UnaryOp(s, x):
            if x.op in ("++", "--", "p++", "p--", "&"):
                m = name(x.expr)
                if m: out.add(m)
            s.generic_visit(x)
    V().visit(n); return out

class State:
    """f: facts;  r: flag -> facts that hold when it is true (None: it is false);  t: names with values from the message"""
    def __init__(s, f=None, r=None, t=None): s.f, s.r, s.t = dict(f or {}), {k: None if v is None else dict(v) for k, v in (r or {}).items()}, set(t or ())
    def copy(s): return State(s.f, s.r, s.t)
    def add(s, fs):
        for x in fs:
            if isinstance(x, str): s.f.update(s.r.get(x) or {})
            else: s.f[x.key()] = x
    def sets(s): return [s.f] + [d for d in s.r.values() if d is not None]
    def kill(s, n):
        s.r.pop(n, None)
        for d in s.sets():
            for k in [k for k, x in d.items() if any(m == n or m.startswith((n + "->", n + ".")) for m in x.c)]: del d[k]
    def subst(s, n, d):
        """n has grown by the form d"""
        for dd in s.sets():
            old = [x for x in dd.values() if n in x.c]
            for x in old: del dd[x.key()]
            for x in old:
                y = x.plus(d, -x.c[n]); dd[y.key()] = y

class Bounds:
    def __init__(self, source, caps, on_use):
        """source(name): the name stands for a value of the message;  caps: linear forms of the capacities;  on_use(kind, node, ok, why)"""
        self.source, self.caps, self.use = source, caps, on_use
    # ---------------------------------------------------------------- proving
    def implied(self, fs, t):
        if not t.c: return t.k >= 0
        fs = list(fs)
        seen, todo = set(), [t]
        for _ in range(60):
            if not todo: return False
            g = todo.pop(0)
            if g.key() in seen: continue
            seen.add(g.key())
            for f in fs:
                # g = q*f + rest, rest a constant >= 0 or something to prove
                for n in g.c:
                    if n in f.c and (g.c[n] > 0) == (f.c[n] > 0) and g.c[n] % f.c[n] == 0:
                        rest = g.plus(f, -(g.c[n] // f.c[n]))
                        if not rest.c:
                            if rest.k >= 0: return True
                        elif len(rest.c) <= 3 and rest.key() not in seen: todo.append(rest)
        return False
    def tainted(self, e, s): return any(self.source(n) or n in s.t for n in names_in(e))
    def need(self, kind, node, form, expr, s, with_ret=False, lower=False):
        fs = list(s.f.values()) + (list((s.r.get("ret") or {}).values()) if with_ret else [])
        if form is None: self.use(kind, node, None, "not linear"); return
        ok = any(self.implied(fs, c.plus(form, -1)) for c in self.caps)
        low = not lower or self.implied(fs, form)
        self.use(kind, node, ok and low, "" if ok and low else "no comparison keeps it at or below the capacity" if not ok else "may be negative")
    # ---------------------------------------------------------------- statements
    def run(self, body): return self.stmt(body, State())
    def stmt(self, st, s):
        """-> state after, or None when the end is not reached"""
        if st is None or s is None: return s
        if isinstance(st, c_ast.Compound):
            for x in st.block_items or []:
                s = self.stmt(x, s)
                if s is None: return None
            return s
        if isinstance(st, c_ast.DeclList):
            for d in st.decls: s = self.stmt(d, s)
            return s
        if isinstance(st, c_ast.Decl):
            if st.init is not None and st.name and not isinstance(st.init, c_ast.InitList): self.assign(st.name, "=", st.init, s, st)
            return s
        if isinstance(st, (c_ast.Return,)):
            if st.expr is not None: self.expr(st.expr, s)
            return None
        if isinstance(st, (c_ast.Break, c_ast.Continue, c_ast.Goto)): return None
        if isinstance(st, c_ast.If):
            self.expr(st.cond, s)
            a, b = s.copy(), s.copy()
            self.learn(st.cond, True, a); self.learn(st.cond, False, b)
            return self.join(self.stmt(st.iftrue, a), self.stmt(st.iffalse, b))
        if isinstance(st, c_ast.Switch):
            self.expr(st.cond, s)
            out = s.copy()
            for n in assigned(st.stmt): out.kill(n)
            for x in (st.stmt.block_items or []) if isinstance(st.stmt, c_ast.Compound) else []:
                if isinstance(x, (c_ast.Case, c_ast.Default)):
                    b = s.copy()
                    for y in x.stmts or []:
                        b = self.stmt(y, b)
                        if b is None: break
            return out
        if isinstance(st, (c_ast.For, c_ast.While, c_ast.DoWhile)): return self.loop(st, s)
        if isinstance(st, c_ast.Label): return self.stmt(st.stmt, s)
        if isinstance(st, c_ast.EmptyStatement): return s
        self.expr(st, s); return s
    def learn(self, cond, truth, s):
        fs = facts(cond, truth)
        s.add(fs)
        for n in facts(cond, not truth):
            if isinstance(n, str) and n in s.r and len(facts(cond, not truth)) == 1: s.r[n] = None        # known to be false
        for n in fs:
            if isinstance(n, str) and n in s.r and s.r[n] is None: s.r[n] = {}
    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        o = State()
        for k, x in a.f.items():
            if k in b.f or self.implied(b.f.values(), x): o.f[k] = x
        for k, x in b.f.items():
            if k not in o.f and self.implied(a.f.values(), x): o.f[k] = x
        for n in set(a.r) | set(b.r):
            if n in a.r and a.r[n] is None and n in b.r and b.r[n] is None: o.r[n] = None; continue
            sides = [{**x.f, **(x.r.get(n) or {})} for x in (a, b) if not (n in x.r and x.r[n] is None)]      # a side where the flag is false says nothing about true
            first = sides[0]
            o.r[n] = {k: x for k, x in first.items() if all(k in y or self.implied(y.values(), x) for y in sides[1:])}
        o.t = a.t | b.t
        return o
    def loop(self, st, s):
        if isinstance(st, c_ast.For) and st.init is not None: s = self.stmt(st.init, s)
        ch = assigned(st)
        head = s.copy()
        tc = st.cond is not None and self.tainted(st.cond, s)
        keep = {n: [f for f in s.f.values() if n in f.c and f.c[n] == 1 and not any(m in ch and m != n for m in f.c)] for n in ch}   # lower bounds survive counting up
        for n in ch: head.kill(n)
        inc = self.counted(st, ch)
        for n in inc:
            for f in keep.get(n, []): head.add([f])
        body = head.copy()
        if tc: body.t |= {n for n in ch if n not in ("ret", "*pErrCode")}
        if st.cond is not None:
            self.expr(st.cond, body)
            if not isinstance(st, c_ast.DoWhile):
                # the result flag was set by the step before the loop or by the end of the body
                for n, d in s.r.items():
                    both = {k: x for k, x in (d or {}).items() if not any(m in ch for m in x.c)}
                    # a flag the loop changes is true on entry only if it was true before (first round) or after a successful step (later rounds, when it was true all along)
                    body.r[n] = both
                self.learn(st.cond, True, body)
                self.limit(st, body, s)
        e = self.stmt(st.stmt, body)
        if isinstance(st, c_ast.For) and st.next is not None and e is not None: self.expr(st.next, e)
        out = head
        if tc: out.t |= {n for n in ch if n not in ("ret", "*pErrCode")}
        if isinstance(st, c_ast.DoWhile): return out
        for c in conj(st.cond) if st.cond is not None else []:
            # a counter that goes up by one and is compared in the condition leaves the loop at most at the limit
            if isinstance(c, c_ast.BinaryOp) and c.op in ("<", "<="):
                n, lim = name(c.left), lin(c.right, True)
                if n in inc and lim is not None and not any(m in ch for m in lim.c):
                    f = lim.plus(L({n: 1}), -1)
                    if c.op == "<=": f = L(f.c, f.k + 1)
                    if self.implied(list(s.f.values()), f): out.add([f])
        return out
    def counted(self, st, ch):
        """names the loop changes only by ++ """
        out = set()
        for n in ch:
            bad = [0]; up = [0]
            class V(c_ast.NodeVisitor):
                def visit_Assignment(v, x):
                    if name(x.lvalue) == n:
                        if x.op == "+=" and isinstance(x.rvalue, c_ast.Constant) and x.rvalue.value == "1": up[0] += 1
                        else: bad[0] += 1
                    v.generic_visit(x)
                def visit_UnaryOp(v, x):
                    if name(x.expr) == n:
                        if x.op in ("++", "p++"): up[0] += 1
                        elif x.op in ("--", "p--", "&"): bad[0] += 1
                    v.generic_visit(x)
            V().visit(st.stmt)
            if isinstance(st, c_ast.For) and st.next is not None: V().visit(st.next)
            if not bad[0] and up[0] == 1: out.add(n)
        return out
    def limit(self, st, s, before):
        """a loop that decodes items up to a limit taken from the message"""
        if not any(isinstance(x, c_ast.FuncCall) and isinstance(x.name, c_ast.ID) and x.name.name == "INNER_STEP" for x in walk(st.stmt)): return
        if any(isinstance(x, c_ast.FuncCall) for x in walk(st.cond)):       # goes on while the input says so
            inc = [n for n in self.counted(st, assigned(st)) if n in names_in(st.cond)] or list(self.counted(st, assigned(st)))
            for n in inc[:1]: self.need("item index", st, L({n: 1}, 1), st.cond, s)
        for c in conj(st.cond):
            if isinstance(c, c_ast.BinaryOp) and c.op in ("<", "<=", "!="):
                if self.tainted(c.right, s) and name(c.left):
                    f = lin(c.right)
                    if f is not None and c.op == "<=": f = L(f.c, f.k + 1)
                    self.need("loop limit", c, f, c.right, s)
    # ---------------------------------------------------------------- expressions
    def expr(self, e, s):
        if e is None: return
        if isinstance(e, c_ast.Assignment):
            n = name(e.lvalue)
            if isinstance(e.lvalue, c_ast.ArrayRef):
                self.expr(e.rvalue, s)
                ix = e.lvalue.subscript
                if isinstance(e.rvalue, c_ast.Constant) and self.tainted(ix, s): self.need("terminator", e, lin(ix), ix, s)
                return
            if n is None: self.expr(e.rvalue, s); self.expr(e.lvalue, s); return
            self.assign(n, e.op, e.rvalue, s, e); return
        if isinstance(e, c_ast.UnaryOp) and e.op in ("++", "p++", "--", "p--"):
            n = name(e.expr)
            if n: s.subst(n, L(k=1 if "+" in e.op else -1))
            return
        if isinstance(e, c_ast.FuncCall):
            args = e.args.exprs if e.args else []
            for a in args: self.expr(a, s)
            f = e.name.name if isinstance(e.name, c_ast.ID) else None
            if READS.get(f) and len(args) == 3:
                d, ln = READS[f]
                if self.tainted(args[ln], s):
                    form = lin(args[ln]); off = args[d]
                    if isinstance(off, c_ast.UnaryOp) and off.op == "&" and isinstance(off.expr, c_ast.ArrayRef):
                        ix = off.expr.subscript
                        if isinstance(ix, c_ast.BinaryOp) and ix.op == "/": ix = ix.left
                        o = lin(ix); form = None if form is None or o is None else form.plus(o)
                    direct = {n for n in names_in(args[ln])} 
                    self.need("%s of %s" % ("bits" if "Bits" in f else "octets", "a read"), e, form, args[ln], s, lower=any(self.source(n) for n in direct) or any(self.source(m) for n in direct for k in s.f.values() if n in k.c for m in k.c))
            for a in args:
                if isinstance(a, c_ast.UnaryOp) and a.op == "&":
                    n = name(a.expr)
                    if n: s.kill(n); s.t.add(n)
            return
        if isinstance(e, c_ast.TernaryOp):
            self.expr(e.cond, s); a = s.copy(); self.learn(e.cond, True, a); self.expr(e.iftrue, a); b = s.copy(); self.learn(e.cond, False, b); self.expr(e.iffalse, b); return
        if isinstance(e, c_ast.BinaryOp) and e.op in ("&&", "||"):
            self.expr(e.left, s); a = s.copy(); self.learn(e.left, e.op == "&&", a); self.expr(e.right, a)
            s.t |= a.t
            for n in assigned(e.right): s.kill(n)
            return
        for _, c in e.children(): self.expr(c, s)
    def success(self, e):
        """facts when the boolean e is true"""
        out = []
        for c in conj(e):
            while isinstance(c, c_ast.Cast): c = c.expr
            if isinstance(c, c_ast.FuncCall) and isinstance(c.name, c_ast.ID) and c.name.name in RANGED and c.args and len(c.args.exprs) >= 4:
                v, lo, hi = (c.args.exprs[i] for i in RANGED[c.name.name])
                n = name(v.expr) if isinstance(v, c_ast.UnaryOp) and v.op == "&" else None
                lo, hi = lin(lo), lin(hi)
                if n and lo is not None and hi is not None: out += [L({n: 1}).plus(lo, -1), hi.plus(L({n: 1}), -1)]
            elif isinstance(c, c_ast.TernaryOp):
                if name(c.iffalse) in ("FALSE", "false") or getattr(c.iffalse, "value", "") == "0": out += self.success(c.cond) + self.success(c.iftrue)
                elif name(c.iftrue) in ("FALSE", "false") or getattr(c.iftrue, "value", "") == "0": out += facts(c.cond, False) + self.success(c.iffalse)
            elif isinstance(c, c_ast.Assignment) and name(c.lvalue): out += self.success(c.rvalue)
            else: out += facts(c, True)
        return out
    def assign(self, n, op, rv, s, node):
        self.expr(rv, s)
        core = rv
        while isinstance(core, c_ast.Cast): core = core.expr
        false = name(core) in ("FALSE", "false") or (n == "ret" and getattr(core, "value", "") == "0")
        if op in ("=", "&=") and "->" not in n and (n == "ret" or false or name(core) in ("TRUE", "true") or (isinstance(core, c_ast.BinaryOp) and core.op in ("<", "<=", ">", ">=", "==", "!=", "&&", "||")) or (isinstance(core, c_ast.UnaryOp) and core.op == "!")):
            got = ([n] if op == "&=" else []) + self.success(rv)
            new = {}
            for f in got:
                if isinstance(f, str): new.update(s.r.get(f) or {})
                else: new[f.key()] = f
            dead = op == "&=" and n in s.r and s.r[n] is None
            s.kill(n); s.r[n] = None if false or dead else new
            if n != "ret" and self.tainted(rv, s): s.t.add(n)
            return
        form = lin(rv)
        t = self.tainted(rv, s)
        if n in s.r: del s.r[n]
        if n.endswith("nCount") and ("->" in n or "." in n) and op == "=" and not isinstance(rv, c_ast.Constant):
            self.need("element count", node, form, rv, s, with_ret=True, lower=any(self.source(m) for m in names_in(rv)))
        if op == "=":
            s.kill(n)
            if t: s.t.add(n)
            else: s.t.discard(n)
            if form is not None and n not in form.c: s.add([form.plus(L({n: 1}), -1), L({n: 1}).plus(form, -1)])
        elif op in ("+=", "-=") and form is not None and n not in form.c:
            s.subst(n, form if op == "+=" else L().plus(form, -1))
            if t: s.t.add(n)
        else:
            s.kill(n)
            if op == "&=" and form is not None and not form.c and form.k >= 0: s.add([L({n: -1}, form.k), L({n: 1})])
            if t: s.t.add(n)
def walk(n):
    yield n
    for _, c in n.children(): yield from walk(c)
