"""Typestate of the result flag and the error code over the statements of a rendered C template.

State: what is known of every scalar the statements assign (ret, *pErrCode, determinants), whether a nested operation has
failed on the path, and which.  Every branch that the state does not decide is taken both ways; a loop body is entered
zero, one or two times."""
from ctempl import c_ast

U = "?"          # unknown
class St:
    __slots__ = ("v", "failed", "log", "trace")
    def __init__(s, v, failed=(), log=(), trace=()): s.v, s.failed, s.log, s.trace = v, failed, log, trace
    def copy(s): return St(dict(s.v), s.failed, s.log, s.trace)
    def key(s): return (tuple(sorted(s.v.items(), key=str)), s.failed, s.log)

class Flow:
    def __init__(self, fallible, status, limit=20000):
        """fallible: name -> 'flag' (false on failure) / 'inner' (flag, sets the error code itself) / 'present' (0,1,2);  status(name) decides"""
        self.kind, self.status, self.n, self.limit = fallible, status, 0, limit
    # ---------------------------------------------------------------- expressions: -> [(value, state)]
    def name(self, e):
        if isinstance(e, c_ast.ID): return e.name
        if isinstance(e, c_ast.UnaryOp) and e.op == "*": n = self.name(e.expr); return n and "*" + n
        if isinstance(e, c_ast.StructRef): n = self.name(e.name); return n and n + e.type + e.field.name
        return None
    def ev(self, e, s):
        if e is None: return [(U, s)]
        if isinstance(e, c_ast.Constant):
            if e.type == "int":
                try: return [(int(e.value.rstrip("uUlL"), 0), s)]
                except ValueError: pass
            return [(U, s)]
        if isinstance(e, c_ast.ID) and e.name in ("TRUE", "true"): return [(1, s)]
        if isinstance(e, c_ast.ID) and e.name in ("FALSE", "false"): return [(0, s)]
        if isinstance(e, c_ast.ID) and e.name.startswith("ERR_"): return [(e.name, s)]
        n = self.name(e)
        if n is not None: return [(s.v.get(n, U), s)]
        if isinstance(e, c_ast.Cast): return self.ev(e.expr, s)
        if isinstance(e, c_ast.FuncCall): return self.call(e, s)
        if isinstance(e, c_ast.Assignment):
            out = []
            for v, s1 in self.ev(e.rvalue, s):
                if e.op != "=":
                    old = s1.v.get(self.name(e.lvalue), U)
                    v = (1 if old not in (U, 0) and v not in (U, 0) else 0 if 0 in (old, v) else U) if e.op == "&=" else U
                for _, s2 in (self.ev(e.lvalue, s1) if self.name(e.lvalue) is None else [(0, s1)]):
                    out.append((v, self.assign(e.lvalue, v, s2)))
            return out
        if isinstance(e, c_ast.UnaryOp):
            if e.op == "!":
                return [((1 if v == 0 else U if v == U else 0), t) for v, t in self.ev(e.expr, s)]
            if e.op in ("++", "--", "p++", "p--"): return [(U, self.assign(e.expr, U, s))]
            if e.op == "sizeof": return [(U, s)]
            return [(U, t) for _, t in self.ev(e.expr, s)]
        if isinstance(e, c_ast.BinaryOp):
            if e.op in ("&&", "||"):
                out = []
                for v, s1 in self.branch(e.left, s):
                    if (e.op == "&&") == bool(v): out += self.branch(e.right, s1)
                    else: out.append((v, s1))
                return out
            out = []
            for a, s1 in self.ev(e.left, s):
                for b, s2 in self.ev(e.right, s1):
                    if e.op in ("==", "!=") and a != U and b != U: out.append((int((a == b) == (e.op == "==")), s2))
                    elif isinstance(a, int) and isinstance(b, int) and e.op in "< > <= >= + - * & |".split():
                        out.append((int(eval("a %s b" % e.op)), s2))
                    else: out.append((U, s2))
            return out
        if isinstance(e, c_ast.TernaryOp):
            out = []
            for v, s1 in self.branch(e.cond, s): out += self.ev(e.iftrue if v else e.iffalse, s1)
            return out
        if isinstance(e, c_ast.ExprList):
            cur = [(U, s)]
            for x in e.exprs: cur = [r for _, t in cur for r in self.ev(x, t)]
            return cur
        if isinstance(e, c_ast.ArrayRef):
            return [(U, t) for _, t in self.ev(e.subscript, s)]
        if isinstance(e, (c_ast.CompoundLiteral, c_ast.InitList, c_ast.Typename)): return [(U, s)]
        return [(U, s)]
    def branch(self, e, s):
        """-> [(truth, state)], unknown taken both ways, learning what equality tests and plain flags say"""
        out = []
        for v, t in self.ev(e, s):
            if v == U:
                for b in (1, 0):
                    u = t.copy()
                    self.learn(e, b, u); out.append((b, u))
            else: out.append((0 if v == 0 else 1, t))
        return out
    def learn(self, e, b, s):
        n = self.name(e)
        if n: s.v[n] = 1 if b else 0
        elif isinstance(e, c_ast.UnaryOp) and e.op == "!": self.learn(e.expr, 1 - b, s)
        elif isinstance(e, c_ast.BinaryOp) and e.op in ("==", "!="):
            n = self.name(e.left)
            if n and (e.op == "==") == bool(b):
                r = self.ev(e.right, s)
                if len(r) == 1 and r[0][0] != U: s.v[n] = r[0][0]
    def assign(self, lv, v, s):
        n = self.name(lv)
        s = s.copy()
        if n: s.v[n] = v
        return s
    def call(self, e, s):
        f = e.name.name if isinstance(e.name, c_ast.ID) else None
        cur = [s]
        for a in (e.args.exprs if e.args else ()):
            cur = [t for c in cur for _, t in self.ev(a, c)]
        k = self.kind(f)
        out = []
        for t in cur:
            if k is None:
                for a in (e.args.exprs if e.args else ()):
                    n = self.name(a.expr) if isinstance(a, c_ast.UnaryOp) and a.op == "&" else None
                    if n: t = self.assign(a.expr, U, t)
                out.append((U, t)); continue
            if t.v.get("ret") == 0 or t.failed:
                t = t.copy(); t.log += (("after", f),)
            if k == "present":
                for r in (0, 1, 2):
                    u = t.copy()
                    if r == 0: u.failed += (f,)
                    out.append((r, u))
                continue
            ok, no = t.copy(), t.copy()
            for a in (e.args.exprs if e.args else ()):
                n = self.name(a.expr) if isinstance(a, c_ast.UnaryOp) and a.op == "&" else None
                if n: ok.v[n] = U; no.v[n] = U
            no.failed += (f,)
            if k == "inner": no.v["*pErrCode"] = "ERR_INNER"; ok.v["*pErrCode"] = 0
            out += [(1, ok), (0, no)]
        return out
    # ---------------------------------------------------------------- statements: -> [(state, how)]  how: None / 'break' / 'continue' / ('return', value)
    def run(self, st, s):
        self.n += 1
        if self.n > self.limit: raise OverflowError("too many paths")
        if st is None: return [(s, None)]
        if isinstance(st, c_ast.Compound): return self.seq(st.block_items or [], s)
        if isinstance(st, c_ast.DeclList): return self.seq(st.decls, s)
        if isinstance(st, c_ast.Decl):
            if st.init is None or isinstance(st.init, c_ast.InitList):
                t = s.copy(); t.v.pop(st.name, None); return [(t, None)]
            out = []
            for v, t in self.ev(st.init, s):
                t = t.copy(); t.v[st.name] = v; out.append((t, None))
            return out
        if isinstance(st, c_ast.If):
            out = []
            for v, t in self.branch(st.cond, s): out += self.run(st.iftrue if v else st.iffalse, t)
            return out
        if isinstance(st, (c_ast.While, c_ast.For, c_ast.DoWhile)):
            out, cur = [], [s]
            if isinstance(st, c_ast.For): cur = [t for c in cur for t, _ in (self.run(st.init, c) if isinstance(st.init, c_ast.DeclList) else [(y, None) for _, y in self.ev(st.init, c)])]
            first = isinstance(st, c_ast.DoWhile)
            for k in range(3):
                nxt = []
                for c in cur:
                    for v, t in ([(1, c)] if first and k == 0 else self.branch(st.cond, c) if st.cond else [(1, c)]):
                        if not v: out.append((t, None)); continue
                        if k == 2: continue
                        for u, how in self.run(st.stmt, t):
                            if how == "break": out.append((u, None))
                            elif how is None or how == "continue":
                                if isinstance(st, c_ast.For): nxt += [y for _, y in self.ev(st.next, u)]
                                else: nxt.append(u)
                            else: out.append((u, how))
                cur = self.uniq(nxt)
            return out
        if isinstance(st, c_ast.Switch):
            out = []
            items = st.stmt.block_items or [] if isinstance(st.stmt, c_ast.Compound) else [st.stmt]
            heads = [i for i, x in enumerate(items) if isinstance(x, (c_ast.Case, c_ast.Default))]
            for _, c in self.ev(st.cond, s):
                for h in heads:
                    cur = [(c, None)]
                    for x in items[h:]:
                        nx = []
                        for t, how in cur:
                            if how is not None: nx.append((t, how)); continue
                            nx += self.seq(x.stmts or [], t) if isinstance(x, (c_ast.Case, c_ast.Default)) else self.run(x, t)
                        cur = nx
                    out += [(t, None if how == "break" else how) for t, how in cur]
                if not any(isinstance(items[h], c_ast.Default) for h in heads): out.append((c, None))
            return out
        if isinstance(st, c_ast.Return): return [(t, ("return", v)) for v, t in self.ev(st.expr, s)]
        if isinstance(st, c_ast.Break): return [(s, "break")]
        if isinstance(st, c_ast.Continue): return [(s, "continue")]
        if isinstance(st, (c_ast.EmptyStatement, c_ast.Pragma)): return [(s, None)]
        if isinstance(st, (c_ast.Case, c_ast.Default)): return self.seq(st.stmts or [], s)
        if isinstance(st, c_ast.Label): return self.run(st.stmt, s)
        if isinstance(st, c_ast.FuncCall):
            f = st.name.name if isinstance(st.name, c_ast.ID) else None
            return [(t, None) for _, t in self.ev(st, s)]
        return [(t, None) for _, t in self.ev(st, s)]
    def seq(self, items, s):
        cur = [(s, None)]
        for x in items:
            nx = []
            for t, how in cur:
                if how is not None: nx.append((t, how))
                else: nx += self.run(x, t)
            cur = self.uniq2(nx)
        return cur
    def uniq(self, l): return list({x.key(): x for x in l}.values())
    def uniq2(self, l): return list({(x.key(), h): (x, h) for x, h in l}.values())
