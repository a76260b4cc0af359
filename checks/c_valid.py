"""T10, T11: what the generated validity checks and comparisons compute, decided on the rendered templates of the C and Ada back ends
and on the combination tables of the compiler."""
import re, itertools, collections, os
from common import *
import vsem, ctempl
from vsem import Sem, Und, Bad
from c_templates import load, loc, fs, body_of, arms

LN = {"c": "C", "a": "Ada"}
class Job:
    """one language: renders, interprets, reports"""
    def __init__(s, rep, lang, grp, prop):
        s.rep, s.lang, s.gn, s.n, s.und = rep, lang, grp, 0, collections.Counter()
        G = load(lang)
        s.g = G.get(grp)
        if s.g is None: raise AnalysisError("template group %s of %s is gone" % (grp, LN[lang]))
        s.decided = set()
    def has(s, name): return name in s.g.T and name in s.g.body
    def text(s, name, **kw):
        t = s.g.T[name]; env = {p: ctempl.base_value(p) for p in t.params}
        for p in t.params:
            if p.startswith("arrs"): env[p] = []
            if re.match(r"so[A-Z]", p): env[p] = None
            if re.match(r"b[A-Z]", p): env[p] = False
        env.update({k: v for k, v in kw.items() if k in env})
        for k in kw:
            if k not in env: raise Und("no parameter %s" % k)
        return s.g.render(name, env)
    def bad(s, name, kind, msg):
        s.rep.violation("%s|%s|%s|%s" % (s.lang, s.gn, name, kind), "template %s (%s): %s" % (name, LN[s.lang], msg), loc(s.g, s.g.T[name]))
    def each(s, name, fn):
        """fn() yields (description, thunk -> None or what is wrong)"""
        if not s.has(name): return
        try:
            for d, th in fn():
                s.n += 1; s.decided.add(name)
                try: m = th()
                except Bad as b: m = str(b)
                if m: s.bad(name, "value", "%s: %s" % (d, m)); return
        except Bad as b: s.bad(name, "text", str(b))
        except Und as u: s.und["%s %s (%s)" % (s.lang, name, u)] += 1
        except (KeyError, TypeError, AttributeError, RecursionError) as x: s.und["%s %s (%s)" % (s.lang, name, repr(x)[:60])] += 1
    def sem(s, text, mem, calls, unit=None, result=None):
        result = s.gn in ("isvalid", "uper", "acn", "xer") if result is None else result
        b = vsem.body(s.lang, text, unit, result)
        if s.lang == "a":
            mem = {k.lower() if k != "*pErrCode" else k: v for k, v in mem.items()}; calls = {k.lower(): v for k, v in calls.items()}
        m = Sem(mem, calls); m.ret = m.go(b)
        return m

def operand(v, code=None, need=1):
    """statement operand: may be entered only with ret TRUE; leaves the verdict v in ret, and its error code if it has one"""
    def f(m, args):
        if need and not m.mem.get("ret"): raise Bad("an operand is run while ret is FALSE, where its loops and presence tests give no verdict")
        m.mem["ret"] = v
        if code is not None: m.mem["*pErrCode"] = 0 if v else code
        m.entered = getattr(m, "entered", 0) + 1
        return None
    return f
TF = (0, 1)
def tf(v): return "TRUE" if v else "FALSE"

# ------------------------------------------------------------------------------------------------ T10
def exp_forms(j):
    """the expression texts the leaf templates can produce, over two variables: (text, function of their values)"""
    out = []
    for n, f in (("ExpEqual", lambda a, b: a == b), ("ExpGt", lambda a, b: a > b), ("ExpGte", lambda a, b: a >= b), ("ExpLt", lambda a, b: a < b), ("ExpLte", lambda a, b: a <= b)):
        if j.has(n): out.append((n, f))
    return out

def t10_lang(rep, lang):
    j = Job(rep, lang, "isvalid", "T10")
    neg = "!%s" if lang == "c" else "not %s"
    # --- expressions: comparisons
    for n, f in exp_forms(j):
        def cmpj(n=n, f=f):
            t = j.text(n, sExp1="aa", sExp2="bb")
            for a, b in itertools.product(range(3), repeat=2):
                yield "with operands %d and %d" % (a, b), lambda a=a, b=b: None if bool(j.sem("zz %s %s;" % (":=" if lang == "a" else "=", t), {"aa": a, "bb": b}, {}, result=False).mem["zz"]) == f(a, b) else "the comparison is %s" % tf(not f(a, b))
        j.each(n, cmpj)
    # --- expressions: connectives over every form an operand can have
    def lits(x, y):
        o = []
        for n, f in exp_forms(j): o.append((j.text(n, sExp1=x, sExp2=y), f))
        o.append(("ff(%s)" % x, lambda a, b: bool(a)))
        if j.has("ExpNot"): o.append((j.text("ExpNot", sExp=j.text("ExpEqual", sExp1=x, sExp2=y)), lambda a, b: a != b))
        for n, f in (("ExpOr", lambda a, b: a == b or a > b), ("ExpAnd", lambda a, b: a == b and a >= b)):
            if j.has(n): o.append((j.text(n, sExp1=j.text("ExpEqual", sExp1=x, sExp2=y), sExp2=j.text("ExpGt" if n == "ExpOr" else "ExpGte", sExp1=x, sExp2=y)), f))
        return o
    calls = {"ff": lambda m, a: m.ev(a[0])}
    asg = ":=" if lang == "a" else "="
    for n, f in (("ExpOr", lambda u, v: u or v), ("ExpAnd", lambda u, v: u and v), ("ExpNot", lambda u, v: not u)):
        def conj(n=n, f=f):
            for (x, fx), (y, fy) in itertools.product(lits("aa", "bb"), lits("cc", "dd")):
                t = j.text(n, sExp1=x, sExp2=y) if n != "ExpNot" else j.text(n, sExp=x)
                for a, b, c, d in itertools.product(range(2), repeat=4):
                    def th(a=a, b=b, c=c, d=d, t=t, x=x, y=y, fx=fx, fy=fy):
                        got = bool(j.sem("zz %s %s;" % (asg, t), {"aa": a, "bb": b, "cc": c, "dd": d}, calls, result=False).mem["zz"])
                        return None if got == bool(f(fx(a, b), fy(c, d))) else "%s is %s" % (t, tf(got))
                    yield "with aa=%d bb=%d cc=%d dd=%d" % (a, b, c, d), th
                if n == "ExpNot": pass
        j.each(n, conj)
    # --- the constraint expressions of the older interface: leaves, connectives over leaves, lists
    def leaves(x, lo, hi):
        o = []
        def add(n, f, **kw):
            if j.has(n): o.append((j.text(n, **kw), f, n))
        add("SingleValConstraint", lambda v: v == lo, p=x, v=str(lo))
        for b in TF:
            add("RangeConstraint_val_MAX", (lambda v: v >= lo) if b else (lambda v: v > lo), p=x, v=str(lo), bMin=bool(b))
            add("RangeConstraint_MIN_val", (lambda v: v <= hi) if b else (lambda v: v < hi), p=x, v=str(hi), bMax=bool(b))
            for c in TF:
                add("RangeConstraint", lambda v, b=b, c=c: (lo < v or b and v == lo) and (v < hi or c and v == hi), p=x, v1=str(lo), v2=str(hi), bMin=bool(b), bMax=bool(c))
        return o
    def value(t, mem, calls=None): return bool(j.sem("zz %s %s;" % (asg, t), dict(mem), calls or {}, result=False).mem["zz"])
    def leafj(name):
        def jobs():
            for t, f, n in leaves("aa", 1, 3):
                if n != name: continue
                for v in range(5):
                    yield "%s with aa=%d" % (t, v), lambda t=t, v=v, f=f: None if value(t, {"aa": v}) == bool(f(v)) else "the expression is %s" % tf(not f(v))
        j.each(name, jobs)
    for n in ("SingleValConstraint", "RangeConstraint_val_MAX", "RangeConstraint_MIN_val", "RangeConstraint"): leafj(n)
    def oldc(name, f, k):
        def jobs():
            L, R = leaves("aa", 1, 2), leaves("bb", 1, 2)
            for (x, fx, _), (y, fy, _) in itertools.product(L, R if k > 1 else R[:1]):
                if name in ("PrintMultipleConstraints", "ExpAndMulti", "Emit_type"): t = j.text(name, **{"arrsExp" if name == "ExpAndMulti" else "arrsConstraints": [x, y]}, **({"sErrCodeName": "71"} if name == "Emit_type" else {}))
                else: t = j.text(name, sCon1=x, sCon2=y) if k > 1 else j.text(name, sCon=x)
                for a, b in itertools.product(range(4), range(4) if k > 1 else (0,)):
                    def th(a=a, b=b, t=t, w=bool(f(fx(a), fy(b)))):
                        if name != "Emit_type": return None if value(t, {"aa": a, "bb": b}) == w else "%s is %s" % (t, tf(not w))
                        m = j.sem(t, {"aa": a, "bb": b, "ret": 1, "*pErrCode": 0}, {})
                        if bool(m.mem["ret"]) != w: return "the verdict is %s" % tf(not w)
                        return None if (m.mem["*pErrCode"] == 71) == (not w) else "the error code does not go with the verdict"
                    yield "with aa=%d bb=%d" % (a, b), th
        j.each(name, jobs)
    oldc("AND_Constraint", lambda u, v: u and v, 2); oldc("OR_Constraint", lambda u, v: u or v, 2)
    oldc("ExceptConstraint", lambda u, v: u and not v, 2); oldc("AllExceptConstraint", lambda u, v: not u, 1)
    oldc("PrintMultipleConstraints", lambda u, v: u and v, 2);
    if lang == "c": oldc("Emit_type", lambda u, v: u and v, 2)
    def multi():
        for (x, fx), (y, fy) in itertools.product(lits("aa", "bb"), lits("cc", "dd")):
            t = j.text("ExpAndMulti", arrsExp=[x, y])
            for a, b, c, d in itertools.product(range(2), repeat=4):
                yield "with aa=%d bb=%d cc=%d dd=%d" % (a, b, c, d), lambda t=t, w=bool(fx(a, b) and fy(c, d)), e={"aa": a, "bb": b, "cc": c, "dd": d}: None if value(t, e, calls) == w else "%s is %s" % (t, tf(not w))
    j.each("ExpAndMulti", multi)
    # --- sizes
    def sizes():
        for n in range(3):
            yield "string of %d" % n, lambda n=n: None if j.sem("zz %s %s;" % (asg, j.text("StrLen", sExp="pp")), {"pp": n}, {"strlen": lambda m, a: m.ev(a[0]), "adaasn1rtl.getstringsize": lambda m, a: m.ev(a[0])}, result=False).mem["zz"] == n else "the size is another"
    j.each("StrLen", sizes)
    def lens():
        for n in range(3):
            yield "list of %d" % n, lambda n=n: None if j.sem("zz %s %s;" % (asg, j.text("ArrayLen", sExp="pp", sAcc=".")), {"pp.nCount": n, "pp.Length": n}, {}, result=False).mem["zz"] == n else "the size is another"
    j.each("ArrayLen", lens)
    # --- statement combinators
    def comb(name, kinds, f):
        def jobs():
            for v1, v2 in itertools.product(TF, repeat=2):
                kw, calls, mem = {}, {}, {"ret": 1, "*pErrCode": 0, "ee1": v1, "ee2": v2}
                for k, (p, knd) in enumerate(kinds):
                    v = (v1, v2)[k]
                    if knd == "s": kw[p] = "ss%d();" % (k + 1); calls["ss%d" % (k + 1)] = operand(v)
                    else: kw[p] = "ee%d" % (k + 1)
                t = j.text(name, **kw)
                def th(t=t, mem=mem, calls=calls, v1=v1, v2=v2):
                    got = j.sem(t, mem, calls).mem["ret"]
                    return None if bool(got) == bool(f(v1, v2)) else "the verdict is %s" % tf(got)
                yield ("with alternatives %s and %s" % (tf(v1), tf(v2)) if len(kinds) > 1 else "with operand %s" % tf(v1)), th
        j.each(name, jobs)
    s, e = "s", "e"
    comb("StatementOrStatement", [("sStat1", s), ("sStat2", s)], lambda a, b: a or b)
    comb("ExpressionOrStatement", [("sExp1", e), ("sStat2", s)], lambda a, b: a or b)
    comb("StatementOrExpression", [("sStat1", s), ("sExp2", e)], lambda a, b: a or b)
    comb("StatementAndStatement", [("sStat1", s), ("sStat2", s)], lambda a, b: a and b)
    comb("ExpressionAndStatement", [("sExp1", e), ("sStat2", s)], lambda a, b: a and b)
    comb("StatementAndExpression", [("sStat1", s), ("sExp2", e)], lambda a, b: a and b)
    comb("StatementExceptStatement", [("sStat1", s), ("sStat2", s)], lambda a, b: a and not b)
    comb("ExpressionExceptStatement", [("sExp1", e), ("sStat2", s)], lambda a, b: a and not b)
    comb("StatementExceptExpression", [("sStat1", s), ("sExp2", e)], lambda a, b: a and not b)
    comb("StatementNot", [("sStat", s)], lambda a, b: not a)
    comb("JoinTwoIfFirstOk", [("sStr1", s), ("sStr2", s)], lambda a, b: a and b)
    comb("JoinItems2", [("sPart", s), ("sNestedPart", s)], lambda a, b: a and b)      # also joins the parts of encoders and decoders
    comb("makeExpressionToStatement0", [("sIsValidExp", e)], lambda a, b: a)
    comb("ExpressionToStatement", [("sExp1", e)], lambda a, b: a)
    # --- verdict and error code
    def code(name, kw, v, what, calls=None):
        def jobs():
            for x in (v if isinstance(v, tuple) else (v,)):
                t = j.text(name, **dict(kw, **({"sErrCode": "ERR_1"} if "sErrCode" in j.g.T[name].params else {"sErrorCodeName": "ERR_1"} if "sErrorCodeName" in j.g.T[name].params else {})))
                def th(x=x, t=t):
                    m = j.sem(t, {"ret": 1, "*pErrCode": 0, "ee1": x, "ERR_1": 77}, {"ss1": operand(x)})
                    if bool(m.mem["ret"]) != bool(x): return "the verdict is %s" % tf(m.mem["ret"])
                    if (m.mem["*pErrCode"] != 0) != (not x): return "the error code is %s" % ("set" if m.mem["*pErrCode"] else "not set")
                    if not x and m.mem["*pErrCode"] != 77: return "the error code is not the one of the type"
                yield "%s, check %s" % (what, tf(x)), th
        j.each(name, jobs)
    code("convertVCBExpressionToStatementAndUpdateErrCode", {"sIsValidExp": "ee1"}, TF, "expression")
    code("convertVCBStatementToStatementAndUpdateErrCode", {"sStatement": "ss1();"}, TF, "statement")
    code("convertVCBTRUEToStatementAndUpdateErrCode", {}, 1, "constant")
    code("convertVCBFalseToStatementAndUpdateErrCode", {}, 0, "constant")
    code("always_true_statement", {}, 1, "constant")
    code("always_false_statement", {}, 0, "constant")
    # the error code of the part that fails is the one left
    def joincode():
        for v1, v2 in itertools.product(TF, repeat=2):
            t = j.text("JoinTwoIfFirstOk", sStr1="ss1();", sStr2="ss2();")
            def th(v1=v1, v2=v2, t=t):
                m = j.sem(t, {"ret": 1, "*pErrCode": 0}, {"ss1": operand(v1, 71), "ss2": operand(v2, 72)})
                want = 71 if not v1 else 0 if v2 else 72
                return None if m.mem["*pErrCode"] == want else "the error code is %d instead of %d" % (m.mem["*pErrCode"], want)
            yield "with parts %s and %s" % (tf(v1), tf(v2)), th
    j.each("JoinTwoIfFirstOk", joincode)
    # --- loops over the elements
    base = 0 if lang == "c" else 1
    for name in ("StatementForLoop", "sequenceOf2"):
        def loop(name=name):
            for fixed in (False, True):
                for n in range(4):
                    for vs in itertools.product(TF, repeat=n):
                        t = j.text(name, p="pp", sAcc=".", i="ii", bIsFixedSize=fixed, nFixedSize=n, sInnerStatement="ss(ii);")
                        def th(n=n, vs=vs, t=t):
                            seen = []
                            def el(m, a):
                                i = m.ev(a[0]) - base
                                if not 0 <= i < n: raise Bad("element %d of %d is checked" % (i, n))
                                if not m.mem["ret"]: raise Bad("an element is checked after one that is not valid")
                                seen.append(i); m.mem["ret"] = vs[i]; m.mem["*pErrCode"] = 0 if vs[i] else 80 + i
                            m = j.sem(t, {"ret": 1, "*pErrCode": 0, "pp.nCount": n if not fixed else 9, "pp.Length": n if not fixed else 9}, {"ss": el})
                            if bool(m.mem["ret"]) != all(vs): return "the verdict is %s (elements checked: %s)" % (tf(m.mem["ret"]), seen)
                        yield "%s size %d, elements %s" % ("fixed" if fixed else "variable", n, "/".join(map(tf, vs)) or "none"), th
        j.each(name, loop)
    # --- presence
    def optional(name, kw, val, present):
        def jobs():
            for k, v in itertools.product(val, TF):
                t = j.text(name, sInnerStatement="ss1();", **kw)
                def th(k=k, v=v, t=t):
                    m = j.sem(t, dict({"ret": 1, "*pErrCode": 0, "K_A": 1, "K_B": 2}, **{q: k for q in ("pp.exist.child", "pp.kind")}), {"ss1": operand(v, 71)})
                    want = v if k == present else 1
                    return None if bool(m.mem["ret"]) == bool(want) else "the verdict is %s" % tf(m.mem["ret"])
                yield "component %s, its check %s" % ("present" if k == present else "absent", tf(v)), th
        j.each(name, jobs)
    optional("Sequence_OptionalChild", dict(p="pp", sAcc=".", sChName="child"), (0, 1), 1)
    optional("Choice_OptionalChild", dict(p="pp", sPLocal="", sAcc=".", sChPresent="K_A"), (1, 2), 1)
    def presence(name, key, kws):
        def jobs():
            for kw, vals, f in kws:
                t = j.text(name, **kw)
                for v in vals:
                    def th(v=v, t=t, f=f):
                        m = j.sem(("%s %s %s;" % ("zz", asg, t)), {key: v, "K_A": 1, "K_B": 2}, {}, result=False)
                        return None if bool(m.mem["zz"]) == f(v) else "the condition is %s" % tf(m.mem["zz"])
                    yield "%s = %d" % (key, v), th
        j.each(name, jobs)
    presence("Sequence_optional_child_always_present_or_absent_expr", "pp.exist.child", [(dict(p="pp", sAcc=".", sChName="child", sPresOrAbs=str(w)), (0, 1), lambda v, w=w: v == w) for w in (0, 1)])
    presence("Choice_child_always_present_Exp", "pp.kind", [(dict(p="pp", sAcc=".", sChPresent="K_A"), (1, 2), lambda v: v == 1)])
    presence("Choice_child_always_absent_Exp", "pp.kind", [(dict(p="pp", sAcc=".", sChPresent="K_A"), (1, 2), lambda v: v != 1)])
    def choice():
        for k, va, vb in itertools.product((1, 2, 3), TF, TF):
            if k == 3 and lang == "a": continue                  # a case statement covers the type
            cs = [j.text("choice_child", sChPresent="K_A", sChildBody="ssa();", sChildName="a"), j.text("choice_child", sChPresent="K_B", sChildBody="ssb();", sChildName="b")]
            t = j.text("choice", p="pp", sAccess=".", arrsChildren=cs, sErrCodeForInvalidCase="ERR_1")
            def th(k=k, va=va, vb=vb, t=t):
                m = j.sem(t, {"ret": 1, "*pErrCode": 0, "pp.kind": k, "K_A": 1, "K_B": 2, "ERR_1": 77}, {"ssa": operand(va, 71), "ssb": operand(vb, 72)})
                want, ec = {1: (va, 71), 2: (vb, 72), 3: (0, 77)}[k]
                if bool(m.mem["ret"]) != bool(want): return "the verdict is %s" % tf(m.mem["ret"])
                if m.mem["*pErrCode"] != (0 if want else ec): return "the error code is %d" % m.mem["*pErrCode"]
            yield "alternative %s, checks %s and %s" % ({1: "first", 2: "second", 3: "none of them"}[k], tf(va), tf(vb)), th
    j.each("choice", choice)
    # --- calls and enumerations
    def basecall():
        for v in TF:
            t = j.text("call_base_type_func", p="pp", sFuncName="base_IsValid", soTypeCasting=None)
            def th(v=v, t=t):
                def f(m, a):
                    if m.key(a[0]) != "pp": raise Bad("another value is checked")
                    if lang == "c" and (len(a) != 2 or m.key(a[1]) != "pErrCode"): raise Bad("the error code is not handed over")
                    m.mem["*pErrCode"] = 0 if v else 71; return v
                m = j.sem(t, {"ret": 1, "*pErrCode": 0, "pp": 5, "pErrCode": 0}, {"base_IsValid": f})
                return None if bool(m.mem["ret"]) == bool(v) else "the verdict is %s" % tf(m.mem["ret"])
            yield "base type check %s" % tf(v), th
    j.each("call_base_type_func", basecall)
    if lang == "c":
        def enum():
            for b in (False, True):
                t = j.text("GetEnumIndexByName", sEnumValuesArray="vals", sEnumValuesArrayCount="nvals", sExp="ee1", bBinarySearch=b)
                for x in range(0, 8):
                    def th(x=x, t=t):
                        def search(m, a):
                            arr, n, v = m.ev(a[0]), m.ev(a[1]), m.ev(a[2])
                            return arr.index(v) if v in arr[:n] else -1
                        m = j.sem("zz = " + t + ";", {"vals": [2, 4, 6], "nvals": 3, "ee1": x}, {"linearSearch": search, "binarySearch": search}, result=False)
                        return None if bool(m.mem["zz"]) == (x in (2, 4, 6)) else "value %d is %s" % (x, "accepted" if m.mem["zz"] else "rejected")
                    yield "enumeration of 2, 4, 6", th
        j.each("GetEnumIndexByName", enum)
    # --- alphabets
    def alpha():
        for n in range(4):
            for vs in itertools.product(TF, repeat=n):
                t = j.text("Print_AlphabetCheckFunc", sFuncName="FF", arrsAlphaConBody=["okc(str%s)" % ("[i]" if lang == "c" else "(i)")])
                def th(vs=vs, t=t):
                    arr = [65 + k for k in range(len(vs))]
                    def okc(m, a): return vs[m.ev(a[0]) - 65]
                    def at(m, a):
                        i = m.ev(a[0]) - 1
                        if not 0 <= i < len(arr): raise Bad("character %d of %d is read" % (i, len(arr)))
                        return arr[i]
                    m = j.sem(t, {"str": arr + [0]}, {"okc": okc, "str": at, "adaasn1rtl.getstringsize": lambda m, a: len(arr)}, unit="FF", result=False)
                    return None if bool(m.ret) == all(vs) else "the verdict is %s" % tf(m.ret)
                yield "string with characters %s" % ("/".join(map(tf, vs)) or "none"), th
    j.each("Print_AlphabetCheckFunc", alpha)
    # --- values of strings
    def vstr(name, kw, fn, cnt, lit):
        def jobs():
            for n1, a1 in ((0, "ab"), (1, "ab"), (2, "ab"), (2, "ax"), (1, "xb")):
                t = j.text(name, **kw)
                def th(n1=n1, a1=a1, t=t):
                    def eq(m, a):
                        k1, k2, x, y = m.ev(a[0]), m.ev(a[1]), m.ev(a[2]), m.ev(a[3])
                        return int(k1 == k2 and x[:k1] == y[:k2])
                    c = {"OctetString_equal": eq, "BitString_equal": eq, "adaasn1rtl.octetstring_equal": eq, "adaasn1rtl.bitstring_equal": eq}
                    m = j.sem("zz %s %s;" % (asg, t), {"pp.nCount": n1, "pp.Length": n1, "pp.arr": a1, "pp.Data": a1, "lit": lit, "blit": lit}, c, result=False)
                    want = (n1 if cnt is None else cnt) == 1 and a1[:1] == lit[:1]
                    return None if bool(m.mem["zz"]) == want else "the comparison is %s" % tf(m.mem["zz"])
                yield "value %r of %d against a value of 1" % (a1, n1), th
        j.each(name, jobs)
    for nm in ("octet", "bit"):
        ex = {"sOctArrayLiteral": "lit"} if nm == "octet" else {"sOctArrayLiteral": "lit", "sBitArrayLiteral": "blit"}
        vstr(nm + "_var_string_equal", dict(p="pp", sAccess=".", nVarLength=1, **ex), None, None, "a")
        vstr(nm + "_fix_string_equal", dict(p="pp", sAccess=".", nVarLength=1, nFixedSize=1, **ex), None, 1, "a")
    def seq():
        for a, b in (("x", "x"), ("x", "y"), ("", "x"), ("xy", "x")):
            t = j.text("ExpStringEqual", sExp1="aa", sExp2="bb")
            def th(a=a, b=b, t=t):
                m = j.sem("zz %s %s;" % (asg, t), {"aa": a, "bb": b}, {"strcmp": lambda m, x: (m.ev(x[0]) > m.ev(x[1])) - (m.ev(x[0]) < m.ev(x[1]))}, result=False)
                return None if bool(m.mem["zz"]) == (a == b) else "the comparison is %s" % tf(m.mem["zz"])
            yield "strings %r and %r" % (a, b), th
    j.each("ExpStringEqual", seq)
    # --- the function
    def comp():
        for v, u in itertools.product(TF, (False, True)):
            t = j.text("EmitTypeAssignment_composite", sVarName="pVal", sPtrPrefix="", sPtrSuffix="*" if lang == "c" else "", sFuncName="FF", sTypeDefName="T", sContent="ss1();", bUnreferenced=u)
            def th(v=v, t=t):
                m = j.sem(t, {"*pErrCode": 0, "pVal": 5}, {"ss1": operand(v, 71)}, unit="FF")
                if m.ret is None: return "no verdict is returned"
                return None if bool(m.ret) == bool(v) else "it returns %s" % tf(m.ret)
            if lang == "a":
                def th(v=v, t=t, th0=th):
                    m = j.sem(t, {"*pErrCode": 0, "pVal": 5}, {"ss1": operand(v, 71)})
                    return None if m.ret is not None and bool(m.ret) == bool(v) else "it returns %s" % tf(m.ret)
            yield "content %s" % tf(v), th
    j.each("EmitTypeAssignment_composite", comp)
    return j

def t10_codec(rep, lang, gn, names):
    """encoders refuse, decoders report, what the validity check rejects"""
    j = Job(rep, lang, gn, "T10")
    for name in names:
        dec = name.endswith("decode")
        def jobs(name=name, dec=dec):
            for chk, valid, cont, hasv in itertools.product(TF, TF, TF, (True, False)):
                kw = dict(sVarName="pVal", sStar="*" if lang == "c" else "", sFuncName="FF", soIValidFuncName="FF_IsValid" if hasv else None, sTypeDefName="T", sContent="ss1();", arrsLocalVariables=[])
                t = j.text(name, **{k: v for k, v in kw.items() if k in j.g.T[name].params})
                def th(chk=chk, valid=valid, cont=cont, hasv=hasv, t=t):
                    ran = []
                    def isv(m, a):
                        if m.key(a[0]) != "pVal": raise Bad("another value is checked")
                        if dec and not ran: raise Bad("the value is checked before it is decoded")
                        m.mem["*pErrCode"] = 0 if valid else 70; return valid
                    def body(m, a):
                        if not m.mem.get("ret"): raise Bad("the content is %s although the value is not valid" % ("decoded" if dec else "encoded"))
                        if m.mem.get("*pErrCode"): raise Bad("the content runs with an error code set")
                        ran.append(1); m.mem["ret"] = cont; m.mem["*pErrCode"] = 0 if cont else 71
                    m = j.sem(t, {"*pErrCode": 99, "bCheckConstraints": chk, "pVal": 5, "pBitStrm": 5, "pByteStrm": 5, "xmlTag": 5, "pErrCode": 1}, {"FF_IsValid": isv, "ss1": body}, unit="FF" if gn != "xer" else "FF_aux")
                    want = cont and (valid or not hasv) if dec else (cont if not (hasv and chk) or valid else 0)
                    if m.ret is None: return "no result is returned"
                    if bool(m.ret) != bool(want): return "the result is %s" % tf(m.ret)
                    if (m.mem["*pErrCode"] != 0) != (not want): return "the error code is %s" % ("set" if m.mem["*pErrCode"] else "not set")
                    if not dec and bool(ran) != bool(not (hasv and chk) or valid): return "the value is %sencoded" % ("" if ran else "not ")
                    if dec and not ran: return "the value is not decoded"
                yield "check %s, value %svalid, %s %s%s" % ("asked for" if chk else "not asked for", "" if valid else "not ", "decoding" if dec else "encoding", "succeeds" if cont else "fails", "" if hasv else ", type without constraints"), th
        j.each(name, jobs)
    return j

# tables of the compiler -------------------------------------------------------------------------
TVAL = {"VCBTrue": 1, "VCBFalse": 0}
MEAN = {"ExpOr": ("or", "ee"), "ExpAnd": ("and", "ee"), "ExpressionOrStatement": ("or", "es"), "StatementOrExpression": ("or", "se"), "StatementOrStatement": ("or", "ss"),
        "ExpressionAndStatement": ("and", "es"), "StatementAndExpression": ("and", "se"), "StatementAndStatement": ("and", "ss"),
        "ExpressionExceptStatement": ("exc", "es"), "StatementExceptExpression": ("exc", "se"), "StatementExceptStatement": ("exc", "ss"), "StatementNot": ("not", "s"), "ExpNot": ("not", "e")}
OPF = {"or": lambda a, b: a or b, "and": lambda a, b: a and b, "exc": lambda a, b: a and not b, "not": lambda a, b=None: not a}

def t10_tables(rep):
    f = "BackendAst/DastValidate2.fs"; src = fs(f); n = collections.Counter()
    def bad(k, m): rep.violation("table|" + k, m, f)
    for fn, op in (("OR", "or"), ("AND", "and"), ("Except", "exc"), ("Not", "not")):
        try: t = body_of(src, r"\nlet ValidationCodeBlock_%s\b" % fn, f)
        except AnalysisError: n["unread"] += 1; continue
        alias = dict(re.findall(r"let\s+(\w+)\s*=\s*lm\.isvalid\.(\w+)", t))
        def tname(x): return x.split(".")[-1] if x.startswith("lm.isvalid.") else alias.get(x, x)
        prm = re.match(r"[^=\n]*=", t); names = re.findall(r"\w+", re.sub(r"\([^()]*:\s*LanguageMacros\s*\)|:\s*\w+", " ", prm.group(0))) if prm else []
        rows = []
        for p, g, r in arms(re.sub(r"//[^\n]*", "", t)):
            rows.append((p, " ".join(r.split())) if not g else ("?guard", r))
        # patterns
        def pats(p, k):
            out, d, cur = [], 0, ""
            for c in p:
                if c in "([": d += 1
                if c in ")]": d -= 1
                if c == "," and d == 0: out.append(cur.strip()); cur = ""
                else: cur += c
            out.append(cur.strip())
            return out if len(out) == k else None
        k = 1 if op == "not" else 2
        tab = []
        for p, r in rows:
            ps = pats(p, k)
            if ps is None: tab = None; break
            kinds, binds, lvs = [], {}, {}
            for i, q in enumerate(ps):
                q = q.strip("() ") if not q.startswith("VCB") else q
                m = re.match(r"(VCB\w+)\s*(.*)$", q)
                if q == "_" or re.fullmatch(r"[a-z]\w*", q): kinds.append("*"); binds[q] = i; continue
                if not m: kinds = None; break
                kinds.append({"VCBTrue": "T", "VCBFalse": "F", "VCBExpression": "e", "VCBStatement": "s"}.get(m.group(1), "?"))
                v = re.findall(r"\w+", m.group(2))
                if v: binds[v[0]] = i
                if len(v) > 1: lvs[v[1]] = i
            if kinds is None: tab = None; break
            tab.append((kinds, binds, lvs, r))
        if not tab: n["unread"] += 1; continue
        def ev(r, binds, lvs, vals, kn):
            """(value, kind, local variables, texts used) of a right hand side"""
            r = r.strip()
            if r in TVAL: return TVAL[r]
            if r in names: return vals[names.index(r)]
            m = re.match(r"ValidationCodeBlock_Not\s+lm\s+(\w+)$", r)
            if m and m.group(1) in names: return int(not vals[names.index(m.group(1))])
            m = re.match(r"VCB(Expression|Statement)\s*\((.*)\)$", r)
            if not m: return None
            inner = m.group(2)
            if m.group(1) == "Statement":
                x = pats(inner, 2)
                if x is None: return None
                inner, lv = x
                have = set(re.findall(r"\w+", lv))
                for w, i in lvs.items():
                    if w not in have: raise Bad("the local variables of operand %d are lost" % (i + 1))
            def term(t):
                t = t.strip()
                while t.startswith("(") and t.endswith(")") and balanced(t[1:-1]): t = t[1:-1].strip()
                if t in binds: return vals[binds[t]], kn[binds[t]]
                a = split_args(t)
                nm = tname(a[0])
                if nm not in MEAN or len(a) - 1 != len(MEAN[nm][1]): return None
                xs = [term(q) for q in a[1:]]
                if None in xs: return None
                o, ks = MEAN[nm]
                for (v, kd), want, pos in zip(xs, ks, range(9)):
                    if kd != want: raise Bad("%s gets a %s as operand %d" % (nm, {"s": "statement", "e": "condition"}[kd], pos + 1))
                return int(OPF[o](*[v for v, _ in xs])), "e" if nm.startswith("Exp") and nm in ("ExpOr", "ExpAnd", "ExpNot") else "s"
            x = term(inner)
            if x is None: return None
            if x[1] != m.group(1)[0].lower(): raise Bad("a %s is used as a %s" % ({"s": "statement", "e": "condition"}[x[1]], m.group(1).lower()))
            return x[0]
        for kn in itertools.product("TFes", repeat=k):
            row = next((r for r in tab if all(a in ("*", b) for a, b in zip(r[0], kn))), None)
            ranges = [{"T": (1,), "F": (0,)}.get(q, TF) for q in kn]
            if row is None: bad("%s|%s" % (fn, "".join(kn)), "ValidationCodeBlock_%s has no row for operands %s" % (fn, kn)); continue
            for vals in itertools.product(*ranges):
                try: got = ev(row[3], row[1], row[2], vals, kn)
                except Bad as b: bad("%s|%s" % (fn, "".join(kn)), "ValidationCodeBlock_%s, row '%s': %s" % (fn, row[3][:60], b)); break
                if got is None: n["unread"] += 1; break
                n["rows"] += 1
                if bool(got) != bool(OPF[op](*vals)): bad("%s|%s" % (fn, "".join(kn)), "ValidationCodeBlock_%s gives %s for operands %s (row '%s')" % (fn, tf(got), ", ".join(map(tf, vals)), row[3][:70])); break
    # limits
    m = re.search(r"\nlet Lte\b.*?\|\s*(true|false)\s*->\s*lm\.isvalid\.(\w+)\s+(\w+)\s+(\w+)\s*\n\s*\|\s*(true|false)\s*->\s*lm\.isvalid\.(\w+)\s+(\w+)\s+(\w+)", src, re.S)
    if m:
        n["limits"] += 1
        for b, g, x, y in (m.groups()[:4], m.groups()[4:]):
            cls = {"ExpLte": ("<=", 0), "ExpLt": ("<", 0), "ExpGte": ("<=", 1), "ExpGt": ("<", 1)}.get(g)
            if cls and (cls[0] != ("<=" if b == "true" else "<") or ((x, y) == ("e1", "e2")) != (cls[1] == 0)): bad("Lte|%s" % b, "Lte with limit %s uses %s %s %s" % ("included" if b == "true" else "left out", g, x, y))
    for fn, lim, less, first in (("con_rangeConstraint_val_MAX", "minint", "<", True), ("con_rangeConstraint_MIN_val", "maxint", ">", False)):
        try: t = body_of(src, r"\nlet %s\b" % fn, f)
        except AnalysisError: n["unread"] += 1; continue
        mm = re.search(r"match\s+v1\s*(<|>|<=|>=)\s*(\w+)\s+with", t)
        if mm:
            n["limits"] += 1
            if mm.groups() != (less, lim): bad(fn + "|outside", "%s leaves the comparison out when v1 %s %s" % (fn, *mm.groups()))
        for a, b in re.findall(r"when\s+v1\s*=\s*(\w+)(.*?)->", t):
            n["limits"] += 1
            if a != lim or not re.search(r"&&\s*eqIsInc\b", b): bad(fn + "|edge", "%s leaves the comparison out when v1 = %s%s" % (fn, a, b.rstrip()))
        q = re.search(r"Lte\s+lm\s+eqIsInc\s+\((\w+)[^()]*\)\s*\(?(\w+)", t)
        if q:
            n["limits"] += 1
            if (q.group(1).startswith("valToStr")) != first: bad(fn + "|order", "%s compares in the wrong direction" % fn)
    if not n["rows"]: n["tables_not_recognised"] = 1
    rep.cov.update({"table_" + k: v for k, v in n.items()})

def balanced(t):
    d = 0
    for c in t:
        d += c == "("; d -= c == ")"
        if d < 0: return False
    return d == 0
def split_args(t):
    out, d, cur = [], 0, ""
    for c in t:
        if c == "(": d += 1
        if c == ")": d -= 1
        if c.isspace() and d == 0:
            if cur: out.append(cur); cur = ""
        else: cur += c
    if cur: out.append(cur)
    return out

def report(rep, jobs):
    rep.cov["obligations"] = sum(j.n for j in jobs)
    rep.cov["templates_decided"] = sum(len(j.decided) for j in jobs)
    u = [x for j in jobs for x in j.und]
    rep.cov["undecided"] = len(u)
    if u: rep.cov["undecided_templates"] = sorted(u)[:20]
    if rep.cov["templates_decided"] < 10: raise AnalysisError("almost no template could be interpreted: %s" % u[:3])

def t10(rep, tier):
    if ctempl.c_parser is None: raise AnalysisError("pycparser is not available")
    J = [t10_lang(rep, "c"), t10_lang(rep, "a")]
    J += [t10_codec(rep, "c", "uper", ("EmitTypeAssignment_encode", "EmitTypeAssignment_decode")), t10_codec(rep, "c", "acn", ("EmitTypeAssignment_primitive_encode", "EmitTypeAssignment_primitive_decode"))]
    t10_tables(rep)
    report(rep, J)
    rep.cov["rule"] = "for every verdict of the operands each combinator gives the verdict its constraint operator stands for; operands are entered only with ret TRUE; error code set exactly on rejection; encoders refuse and decoders report a value the check rejects"

# ------------------------------------------------------------------------------------------------ T11
def t11_lang(rep, lang):
    j = Job(rep, lang, "equal", "T11"); asg = ":=" if lang == "a" else "="
    cmpf = {"strcmp": lambda m, x: (m.ev(x[0]) > m.ev(x[1])) - (m.ev(x[0]) < m.ev(x[1])),
            "memcmp": lambda m, x: memcmp(m, x), "slice": lambda m, x: (lambda v, n: v[:n])(m.ev(x[0]), m.ev(x[1]))}
    def memcmp(m, x):
        a, b, n = m.ev(x[0]), m.ev(x[1]), m.ev(x[2])
        if n > len(a) or n > len(b): raise Bad("%d octets of %d are compared" % (n, min(len(a), len(b))))
        return (a[:n] > b[:n]) - (a[:n] < b[:n])
    def expr(name, kw, cases):
        def jobs():
            t = j.text(name, **kw)
            for d, mem, want in cases:
                def th(mem=mem, want=want):
                    m = j.sem("zz %s (%s);" % (asg, t), mem, cmpf, result=False)
                    return None if bool(m.mem["zz"]) == bool(want) else "the values are %s" % ("taken for equal" if m.mem["zz"] else "taken for different")
                yield d, th
        j.each(name, jobs)
    expr("isEqual_Primitive", dict(p1="aa", p2="bb"), [("%d and %d" % (a, b), {"aa": a, "bb": b}, a == b) for a in range(3) for b in range(3)])
    S = ["", "a", "ab", "b"]
    expr("isEqual_String", dict(p1="aa", p2="bb"), [("%r and %r" % (a, b), {"aa": a, "bb": b}, a == b) for a in S for b in S])
    # octet strings
    def oct_cases(fixed):
        for n1, n2 in itertools.product(range(3), repeat=2):
            if fixed and n1 != n2: continue
            for a, b in itertools.product(([1, 2], [1, 3], [4, 2]), repeat=2):
                n = 2 if fixed else n1
                A, B = (a, b) if lang == "c" or not fixed else (a[:n], b[:n])
                yield "lengths %d and %d, contents %s and %s" % (n1, n2, a, b), {"pa.nCount": n1, "pb.nCount": n2, "pa.length": n1, "pb.length": n2, "pa.arr": A, "pb.arr": B, "pa.data": A, "pb.data": B}, (n1 == n2 or fixed) and a[:n] == b[:n]
    for fixed in (False, True):
        par = j.g.T["isEqual_OctetString"].params if j.has("isEqual_OctetString") else []
        fx = next((p for p in par if re.match(r"b\w*Fixed", p)), None)
        if fx: expr("isEqual_OctetString", {"p1": "pa.", "p2": "pb.", fx: fixed, "nFixedSize": 2}, list(oct_cases(fixed)))
    # bit strings (C: packed)
    if lang == "c" and j.has("isEqual_BitString"):
        bp = next((p for p in j.g.T["isEqual_BitString"].params if re.match(r"b\w*Fixed", p)), None)
        def bits(bs, fill):
            bs = list(bs) + [fill] * (-len(bs) % 8) + [fill] * 8
            return [int("".join(map(str, bs[k:k + 8])), 2) for k in range(0, len(bs), 8)]
        for n in (0, 1, 7, 8, 9, 15, 16, 17):
            cs = []
            one = [1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1][:n]
            for d in [None] + list(range(n)):
                two = list(one)
                if d is not None: two[d] ^= 1
                for f1, f2 in ((0, 1), (1, 0), (0, 0)):
                    cs.append(("%d bits%s, padding %d and %d" % (n, "" if d is None else ", bit %d differs" % d, f1, f2), {"pa.nCount": n, "pb.nCount": n, "pa.arr": bits(one, f1), "pb.arr": bits(two, f2)}, d is None))
            for fixed in (False, True):
                if bp: expr("isEqual_BitString", {"p1": "pa.", "p2": "pb.", bp: fixed, "nFixedSize": n}, cs)
            if bp and n: expr("isEqual_BitString", {"p1": "pa.", "p2": "pb.", bp: False, "nFixedSize": n}, [("%d and %d bits" % (n, n - 1), {"pa.nCount": n, "pb.nCount": n - 1, "pa.arr": bits(one, 0), "pb.arr": bits(one, 0)}, False)])
    # components
    def child():
        for opt, inner in itertools.product((False, True), (True, False)):
            if not opt and not inner: continue
            t = j.text("isEqual_Sequence_child", p1="pa", p2="pb", sAcc=".", bIsOptional=opt, sChName="child", soInnerStatement="ss1();" if inner else None)
            for e1, e2, v in itertools.product(TF, TF, TF):
                def th(e1=e1, e2=e2, v=v, t=t, opt=opt, inner=inner):
                    def st(m, a):
                        if opt and not (e1 and e2): raise Bad("an absent component is compared")
                        m.mem["ret"] = v
                    m = j.sem(t, {"ret": 1, "pa.exist.child": e1, "pb.exist.child": e2}, {"ss1": st}, result=False)
                    want = v if not opt else e1 == e2 and (not e1 or v or not inner)
                    return None if bool(m.mem["ret"]) == bool(want) else "the values are %s" % ("taken for equal" if m.mem["ret"] else "taken for different")
                yield "%s component, present %d and %d, contents %s" % ("optional" if opt else "mandatory", e1, e2, "equal" if v else "different"), th
    j.each("isEqual_Sequence_child", child)
    def join(name, p2):
        def jobs():
            for v1, v2 in itertools.product(TF, TF):
                t = j.text(name, sPart="ss1();", **{p2: "ss2();"})
                def th(v1=v1, v2=v2, t=t):
                    m = j.sem(t, {"ret": 1}, {"ss1": operand(v1), "ss2": operand(v2)}, result=False)
                    return None if bool(m.mem["ret"]) == bool(v1 and v2) else "the values are %s" % ("taken for equal" if m.mem["ret"] else "taken for different")
                yield "parts %s and %s" % (tf(v1), tf(v2)), th
        j.each(name, jobs)
    join("JoinItems", "soNestedPart"); join("JoinItems2_ret", "sNestedPart")
    base = 0 if lang == "c" else 1
    def seqof(name, fixed):
        def jobs():
            for n1, n2, inner in itertools.product(range(4), range(4), (True, False)):
                if fixed and (n1 != n2 or not inner): continue
                kw = dict(p1="pa", p2="pb", sAcc=".", i="ii")
                kw.update({"nFixedSize": n1, "sInnerStatement": "ss(ii);"} if fixed else {"soInnerStatement": "ss(ii);" if inner else None})
                t = j.text(name, **kw)
                for vs in itertools.product(TF, repeat=min(n1, n2)):
                    def th(n1=n1, n2=n2, vs=vs, t=t, inner=inner):
                        def el(m, a):
                            i = m.ev(a[0]) - base
                            if not 0 <= i < min(n1, n2): raise Bad("element %d of lists of %d and %d elements is compared" % (i, n1, n2))
                            if not m.mem["ret"]: raise Bad("an element is compared after a difference, which is forgotten")
                            m.mem["ret"] = vs[i]
                        m = j.sem(t, {"ret": 1, "pa.nCount": n1, "pb.nCount": n2, "pa.length": n1, "pb.length": n2}, {"ss": el}, result=False)
                        want = n1 == n2 and (not inner or all(vs))
                        return None if bool(m.mem["ret"]) == bool(want) else "the lists are %s" % ("taken for equal" if m.mem["ret"] else "taken for different")
                    yield "lists of %d and %d, elements %s" % (n1, n2, "/".join(map(tf, vs)) or "none"), th
        j.each(name, jobs)
    seqof("isEqual_SequenceOf_var_size", False); seqof("isEqual_SequenceOf_fix_size", True)
    def choice():
        nm = [p for p in j.g.T["isEqual_Choice_Child"].params if p in ("sCid", "sNamePresent")][0]
        cs = [j.text("isEqual_Choice_Child", **{nm: "K_A", "sInnerStatement": "ssa();"}), j.text("isEqual_Choice_Child", **{nm: "K_B", "sInnerStatement": "ssb();"})]
        t = j.text("isEqual_Choice", p1="pa", p2="pb", sAccess=".", arrsChildren=cs)
        for k1, k2, va, vb in itertools.product((1, 2), (1, 2), TF, TF):
            def th(k1=k1, k2=k2, va=va, vb=vb):
                def st(k, v):
                    def f(m, a):
                        if k1 != k or k2 != k: raise Bad("an alternative that is not present is compared")
                        m.mem["ret"] = v
                    return f
                m = j.sem(t, {"ret": 1, "pa.kind": k1, "pb.kind": k2, "K_A": 1, "K_B": 2}, {"ssa": st(1, va), "ssb": st(2, vb)}, result=False)
                want = k1 == k2 and (va if k1 == 1 else vb)
                return None if bool(m.mem["ret"]) == bool(want) else "the values are %s" % ("taken for equal" if m.mem["ret"] else "taken for different")
            yield "alternatives %d and %d, contents %s/%s" % (k1, k2, tf(va), tf(vb)), th
    j.each("isEqual_Choice", choice)
    def call(name, fp):
        def jobs():
            for v in TF:
                t = j.text(name, p1="aa", p2="bb", **{fp: "FEQ"})
                t = t if name == "callChildEqualFunc" else "ret %s %s;" % (asg, t)
                def th(v=v, t=t):
                    def f(m, a):
                        if {m.key(x) for x in a} != {"aa", "bb"}: raise Bad("a value is compared with itself")
                        return v
                    m = j.sem(t, {"ret": 1, "aa": 1, "bb": 1}, {"FEQ": f}, result=False)
                    return None if bool(m.mem["ret"]) == bool(v) else "the answer is %s" % tf(m.mem["ret"])
                yield "comparison of the type %s" % tf(v), th
        j.each(name, jobs)
    call("callChildEqualFunc", "sChildEqualFuncName"); call("call_base_type_func", "sFuncName")
    def mk():
        for v in TF:
            t = j.text("makeExpressionToStatement", sIsValidExp="ee1")
            yield "expression %s" % tf(v), lambda v=v: None if bool(j.sem(t, {"ret": 1 - v, "ee1": v}, {}, result=False).mem["ret"]) == bool(v) else "the answer is inverted"
    j.each("makeExpressionToStatement", mk)
    for nm in ("isEqual_Real", "isObjectIdentifier_equal"):
        def fcall(nm=nm):
            t = j.text(nm, p1="aa", p2="bb")
            for v in TF:
                def th(v=v):
                    def f(m, a):
                        if {m.key(x) for x in a} != {"aa", "bb"}: raise Bad("a value is compared with itself")
                        return v
                    fn = re.match(r"\s*([\w.]+)\s*\(", t).group(1)
                    if "equal" not in fn.lower(): raise Bad("calls %s" % fn)
                    m = j.sem("zz %s %s;" % (asg, t), {"aa": 1, "bb": 1}, {fn: f}, result=False)
                    return None if bool(m.mem["zz"]) == bool(v) else "the answer is inverted"
                yield "runtime answer %s" % tf(v), th
        j.each(nm, fcall)
    def func():
        for v, e, u in itertools.product(TF, (False, True), (False, True)):
            t = j.text("equalTypeAssignment", sVarName1="pVal1", sVarName2="pVal2", sStar="*" if lang == "c" else "", sFuncName="FF", sTypeDefName="T", sContent="ee1" if e else "ss1();", bExpression=e, bUnreferenced=u)
            def th(v=v, t=t):
                m = j.sem(t, {"pVal1": 1, "pVal2": 1, "ee1": v}, {"ss1": operand(v)}, unit="FF", result=False)
                return None if m.ret is not None and bool(m.ret) == bool(v) else "it returns %s" % tf(m.ret)
            yield "content %s" % tf(v), th
    j.each("equalTypeAssignment", func)
    return j

def t11(rep, tier):
    if ctempl.c_parser is None: raise AnalysisError("pycparser is not available")
    report(rep, [t11_lang(rep, "c"), t11_lang(rep, "a")])
    rep.cov["rule"] = "for all presence, kinds, lengths and contents enumerated the rendered comparison answers equality of the abstract values, and looks only at items both values have"
