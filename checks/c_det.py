"""T09: values inserted for ACN determinants (lengths, presence, alternatives) and what the decoder concludes from them, decided on the
rendered templates of the C and Ada back ends."""
import re, itertools
from common import *
import vsem, ctempl
from vsem import Sem, Und, Bad, c_ast
from c_valid import Job, report, tf, TF, operand

def ada_prep(t):
    """forms of the ACN templates that the general translation does not know"""
    t = re.sub(r"--[^\n]*", "", t).replace("&", "+")
    t = re.sub(r"(?i)string'\(\s*\"([^\"]*)\"\s*\)'length\s*\+\s*1", lambda m: str(len(m.group(1)) + 1), t)
    t = re.sub(r"(?i)([\w.]+)\s*:=\s*\w[\w.]*'\(\s*kind\s*=>\s*(\w+)\s*,[^;]*\)\s*;", r"\1.kind := \2;", t)
    def decl(m):
        out = ""
        for d in m.group(1).split(";"):
            q = re.match(r"\s*(\w+)\s*:\s*(?:constant\s+)?[\w.]+\s*:=\s*(.*)$", d, re.S)
            if q: out += "%s := %s;\n" % (q.group(1), q.group(2).strip())
        return out
    t = re.sub(r"(?is)\bdeclare\b(.*?)\bbegin\b", decl, t)
    t = re.sub(r"(?i)\bend\s*;", "", t)
    t = re.sub(r"(?i)\badaasn1rtl\.encoding\.bitstream_current_length_in_bytes\s*\(\s*(\w+)\s*\)", r"octets_of(\1)", t)
    t = re.sub(r"(?i)\badaasn1rtl\.encoding\.", "", t); t = re.sub(r"(?i)\badaasn1rtl\.nul\b", '"\\\\0"', t)
    return t

class DJob(Job):
    def __init__(s, rep, lang):
        Job.__init__(s, rep, lang, "acn", "T09"); s.pp = "pp"
    def run(s, text, mem, calls=None, ret=1):
        if s.lang == "a": text = ada_prep(text).replace("@", "")
        m0 = {"ret": ret, "*pErrCode": 0, "pErrCode": 1, "pBitStrm": "outer", "NUL": "\0"}; m0.update(mem)
        def strcpy(m, a):
            k = m.key(a[0])
            if k is None: raise Und("destination")
            m.mem[k] = m.ev(a[1])
        cs = {"strcpy": strcpy, "strcmp": lambda m, a: (lambda x, y: (x > y) - (x < y))(cstr(m.ev(a[0])), cstr(m.ev(a[1]))), "strlen": lambda m, a: len(cstr(m.ev(a[0]))),
              "slice": lambda m, a: (lambda v, n: v[:n])(m.ev(a[0]), m.ev(a[1])), "TT": lambda m, a: m.ev(a[0])}
        cs.update(calls or {})
        return s.sem(text, m0, cs, result=True)
    def k(s, name): return name.lower() if s.lang == "a" else name
    def val(s, m, name): return m.mem.get(s.k(name))
    def init(s, m, name): return bool(m.mem.get(s.k(name) + "_is_initialized"))
def cstr(v):
    if isinstance(v, list): v = "".join(map(chr, v))
    if not isinstance(v, str): raise Und("string")
    return v.split("\0")[0]
def shown(v): return "nothing" if v is None else repr(v)

def lang_job(rep, lang):
    j = DJob(rep, lang); asg = ":=" if lang == "a" else "="; amp = "->" if lang == "c" else "."
    # ---- one component decides the value
    def setv(name, text, cases):
        def jobs():
            t = text()
            for d, mem, want in cases:
                def th(mem=mem, want=want):
                    m = j.run(t, dict(mem, det_is_initialized=0))
                    if not j.init(m, "det"): return "the field is not marked as set, so the encoder refuses every value"
                    v = j.val(m, "det")
                    if isinstance(want, str): v = cstr(v) if isinstance(v, (str, list)) else v
                    return None if v == want else "the field gets %s instead of %s" % (shown(v), shown(want))
                yield d, th
        j.each(name, jobs)
    for chk in (False, True):
        cnt = lambda chk=chk: j.text("SizeDependency", v="det", sCount="nn", nMin=2, nMax=9, bCheckRange=chk, sTypedefName="TT")
        setv("SizeDependency", cnt, [("count %d" % n, {"nn": n}, n) for n in (2, 3, 7, 9)])
    def outside():
        t = j.text("SizeDependency", v="det", sCount="nn", nMin=2, nMax=9, bCheckRange=True, sTypedefName="TT")
        if lang == "a":
            for n in range(1, 11):
                yield "count %d" % n, lambda n=n: None if bool(j.run(t, {"nn": n}).mem["ret"]) == (2 <= n <= 9) else "a count of %d within 2 .. 9 is %s" % (n, "refused" if 2 <= n <= 9 else "taken")
    j.each("SizeDependency", outside)
    setv("SizeDependencyFixedSize", lambda: j.text("SizeDependencyFixedSize", v="det", nFixedSize=17), [("fixed size 17", {}, 17)])
    setv("PresenceDependency", lambda: j.text("PresenceDependency", v="det", sSeqPath="pp", sAcc=amp, sChildName="child"), [("component %s" % ("present" if v else "absent"), {"pp.exist.child": v}, v) for v in TF])
    if lang == "c":
        setv("getSizeableSize", lambda: "det_is_initialized = TRUE; det = %s;" % j.text("getSizeableSize", p="pp", sAcc=amp, bIsUnsigned=True), [("count %d" % n, {"pp.nCount": n, "pp.arr": 99}, n) for n in (0, 1, 5)])
        setv("getStringSize", lambda: "det_is_initialized = TRUE; det = %s;" % j.text("getStringSize", p="pp"), [("string %r" % s, {"pp": s}, len(s)) for s in ("", "a", "abc")])
    KS = {"alt_a": 1, "alt_b": 2, "alt_c": 3}
    def alt(name, item, whole, vals, opt=None):
        def jobs():
            its = [item(k, v) for k, v in zip(sorted(KS), vals)]
            t = whole(its)
            es = {"red": 71, "green": 72, "blue": 73}
            for (k, n), v in zip(sorted(KS.items()), vals):
                def th(n=n, v=v):
                    m = j.run(t, dict(KS, **es, **{"pp.kind": n, "det_is_initialized": 0}))
                    if not m.mem["ret"]: return "the encoder refuses the alternative"
                    if not j.init(m, "det"): return "the field is not marked as set"
                    g = j.val(m, "det"); w = es.get(v, v)
                    if isinstance(w, str): g = cstr(g) if isinstance(g, (str, list)) else g
                    return None if g == w else "the field gets %s instead of %s" % (shown(g), shown(w))
                yield "alternative %s" % k, th
            if lang == "c":
                def th():
                    m = j.run(t, dict(KS, **es, **{"pp.kind": 9, "det_is_initialized": 0}))
                    return "a value is inserted and the encoder goes on" if m.mem["ret"] and j.init(m, "det") else None
                yield "no known alternative", th
        j.each(name, jobs)
    for opt in (False, True):
        alt("ChoiceDependencyEnum", lambda k, v, opt=opt: j.text("ChoiceDependencyEnum_Item", v="det", sChildCID=k, sEnumCName=v, bIsOptional=opt), lambda its, opt=opt: j.text("ChoiceDependencyEnum", sV="det", sChPath="pp", sAcc=amp, arrsChoiceEnumItems=its, bIsOptional=opt), ["red", "green", "blue"])
    alt("ChoiceDependencyPres", lambda k, v: j.text("ChoiceDependencyIntPres_child", v="det", sChildNamePresent=k, sChildRetVal=str(v)), lambda its: j.text("ChoiceDependencyPres", v="det", sChPath="pp", sAcc=amp, arrsChoiceItems=its), [5, 0, 1234])
    alt("ChoiceDependencyPres", lambda k, v: j.text("ChoiceDependencyStrPres_child", v="det", sChildNamePresent=k, sChildRetVal=v, arruChildRetValBytes=[ord(c) for c in v] + [0], arrsNullChars=["NUL"] * (4 - len(v))), lambda its: j.text("ChoiceDependencyPres", v="det", sChPath="pp", sAcc=amp, arrsChoiceItems=its), ["xy", "xyz", "q"])
    # ---- only along an existing path
    def path():
        t = j.text("checkAccessPath", arrsCheckPaths=["c1", "c2"], sUpdateStatement="upd();", v="det", sInitExpr="0")
        for a, b in itertools.product(TF, TF):
            def th(a=a, b=b):
                ran = []
                j.run(t, {"c1": a, "c2": b}, {"upd": lambda m, x: ran.append(1)})
                return None if bool(ran) == bool(a and b) else "the value is %s" % ("taken from a component that is not there" if ran else "not set")
            yield "conditions %s and %s" % (tf(a), tf(b)), th
        t1 = j.text("checkAccessPath", arrsCheckPaths=["c1"], sUpdateStatement="upd();", v="det", sInitExpr="0")
        for a in TF:
            def th(a=a):
                ran = []
                j.run(t1, {"c1": a}, {"upd": lambda m, x: ran.append(1)})
                return None if bool(ran) == bool(a) else "the value is %s" % ("taken from a component that is not there" if ran else "not set")
            yield "one condition %s" % tf(a), th
    j.each("checkAccessPath", path)
    # ---- several components share the field
    def multi(kind):
        def jobs():
            for n in (2, 3):
                vs = ["d%02d" % i for i in range(n)]
                first = [j.text("MultiAcnUpdate_get_first_init_value_" + kind, sV0="det", sVi=v, sChPath="pp", bIsFirst=i == 0, bIsSingleElement=False) for i, v in enumerate(vs)]
                for always in (False, True):
                    eq = [j.text("MultiAcnUpdate_checkEqual_" + kind, sV0="det", sVi=v, sChPath="pp", bIsAlwaysInit=always) for v in vs]
                    t = j.text("MultiAcnUpdate", v="det", sV0=vs[0], sErrCode="55", arrsLocalDeclarations=[], arrsLocalUpdateStatements=["u%d();" % i for i in range(n)], arrsGetFirstIntValue=first, bIsFirstIntValueSingle=False, arrsLocalCheckEquality=eq, sDefaultExpr="0")
                    cands = (None, 7, 8) if kind == "pri" else (None, "ab", "abc")
                    for vals in itertools.product(cands, repeat=n):
                        for ok in ([1] * n, [0] + [1] * (n - 1), [1] * (n - 1) + [0]) if vals == (cands[1],) * n or vals == (None,) * n else ([1] * n,):
                            def th(vals=vals, ok=ok, t=t, vs=vs):
                                # fields nobody set hold a value of an earlier message
                                mem = {"det_is_initialized": 0, "det": cands[2]}
                                for v in vs: mem[v] = cands[1]; mem[v + "_is_initialized"] = 0
                                def upd(i):
                                    def f(m, a):
                                        if vals[i] is not None and ok[i]: m.mem[j.k(vs[i])] = vals[i]; m.mem[j.k(vs[i]) + "_is_initialized"] = 1
                                        if not ok[i]: m.mem["ret"] = 0
                                    return f
                                m = j.run(t, mem, {"u%d" % i: upd(i) for i in range(len(vs))})
                                sets = [v for v in vals if v is not None]
                                want = all(ok) and len(set(sets)) == 1
                                if bool(m.mem["ret"]) != want:
                                    return "the encoder goes on" if not want else "the encoder refuses the value"
                                if want:
                                    if not j.init(m, "det"): return "the field is not marked as set"
                                    g = j.val(m, "det"); g = cstr(g) if isinstance(g, str) else g
                                    if g != sets[0]: return "the field gets %s instead of %s" % (shown(g), shown(sets[0]))
                                elif all(ok) and not m.mem["*pErrCode"]: return "no error code is set"
                            yield "%d components that demand %s%s" % (n, ", ".join("nothing" if v is None else repr(v) for v in vals), "" if all(ok) else ", one of them fails"), th
        j.each("MultiAcnUpdate", jobs)
    multi("pri"); multi("str")
    # ---- the length of a contained encoding
    def contained():
        for octs, ok, bits in itertools.product((True, False), TF, (0, 1, 8, 13, 16, 24)):
            inner = "inner_enc();"
            t = j.text("SizeDependency_oct_str_containing", p="pp", sFuncName="F", sReqBytesForUperEncoding="20", v="det", bIsOctet=octs, sInner=inner, sLocalVarType="TT")
            def th(octs=octs, ok=ok, bits=bits, t=t):
                def enc(m, a):
                    if lang == "c":
                        if m.mem.get("pBitStrm") == "outer": raise Bad("the contained value is written into the enclosing stream")
                        b0 = m.mem["bitStrm.currentByte"] * 8 + m.mem["bitStrm.currentBit"]
                        if b0: raise Bad("the temporary stream is not reset")
                        m.mem["bitStrm.currentByte"], m.mem["bitStrm.currentBit"] = bits // 8, bits % 8
                    else: m.mem["bs"] = bits
                    m.mem["ret"] = ok
                def init(m, a): m.mem["bitStrm.currentByte"] = m.mem["bitStrm.currentBit"] = 0
                mem = {"bitStrm.currentByte": 3, "bitStrm.currentBit": 2, "bitStrm": "inner", "arr": 0, "det_is_initialized": 0, "tmpBs": 0, "det": 99} if lang == "c" else {"tmpbs": 0, "det_is_initialized": 0, "det": 99, "bs": 0}
                text = t
                if lang == "c": text = re.sub(r"\bsizeof\s*\(\s*arr\s*\)", "20", t)
                else: text = re.sub(r"(?i)\btmpBs\.Current_Bit_Pos\b", "tmpBs", t)
                m = j.run(text, mem, {"inner_enc": enc, "BitStream_Init": init, "octets_of": lambda m, a: (m.ev(a[0]) + 7) // 8})
                if lang == "c" and m.mem["pBitStrm"] != "outer": return "the enclosing stream is not restored"
                if bool(m.mem["ret"]) != bool(ok): return "the status of the contained encoder is lost"
                if not ok: return "the field is set although the contained value could not be encoded" if j.init(m, "det") else None
                want = (bits + 7) // 8 if octs else bits
                if not j.init(m, "det"): return "the field is not marked as set"
                return None if j.val(m, "det") == want else "the field gets %s instead of %d" % (shown(j.val(m, "det")), want)
            yield "contained encoding of %d bits as %s string, which %s" % (bits, "octet" if octs else "bit", "succeeds" if ok else "fails"), th
    j.each("SizeDependency_oct_str_containing", contained)
    # ---- a field nobody set is not encoded
    def acnchild():
        t = j.text("sequence_acn_child_encode", sChName="det", sChildContent="ss1();", sErrCode="61", soSaveBitStrmPosStatement="snap();")
        for ini, ok in itertools.product(TF, TF):
            def th(ini=ini, ok=ok):
                ran = []
                sn = []
                def st(m, a): ran.append(len(sn)); m.mem["ret"] = ok; m.mem["*pErrCode"] = 0 if ok else 62
                m = j.run(t, {"det_is_initialized": ini}, {"ss1": st, "snap": lambda m, a: sn.append(1)})
                if 0 in ran: return "the position of the field is not recorded before it is encoded"
                if bool(ran) != bool(ini): return "the field is %sencoded" % ("" if ran else "not ")
                if bool(m.mem["ret"]) != bool(ini and ok): return "the result is %s" % tf(m.mem["ret"])
                if not m.mem["ret"] and not m.mem["*pErrCode"]: return "no error code is set"
            yield "field %sset, coder %s" % ("" if ini else "not ", "succeeds" if ok else "fails"), th
    j.each("sequence_acn_child_encode", acnchild)
    # ---- what the decoder concludes: presence
    def pres(name, kw, cases, expr=None):
        def jobs():
            t = j.text(name, p="pp", sAcc=amp, sChName="child", **kw)
            for d, mem, want in cases:
                def th(mem=mem, want=want):
                    m = j.run(t, dict({"pp.exist.child": 7, "ev": 7}, **mem))
                    g = j.val(m, "pp.exist.child")
                    if bool(g) != bool(want) or g not in (0, 1): return "the component is taken for %s" % ("present" if g else "absent")
                    if not m.mem["ret"]: return "the decoder fails"
                yield d, th
        j.each(name, jobs)
    pres("sequence_presence_optChild_pres_bool_decode", dict(sExtFldName="det"), [("determinant %s" % tf(v), {"det": v}, v) for v in TF])
    pres("sequence_presence_optChild_pres_int_decode", dict(sExtFldName="det", nIntVal=9), [("determinant %d of 9" % v, {"det": v}, v == 9) for v in (0, 1, 8, 9, 10, 25)])
    if lang == "c": pres("sequence_presence_optChild_pres_str_decode", dict(sExtFldName="det", sVal="yes"), [("determinant %r" % v, {"det": v}, v == "yes") for v in ("", "ye", "yes", "yess", "no")])
    pres("sequence_presence_optChild_pres_acn_expression_decode", dict(sAcnExpression="ee", soExistVar="ev", sErrCode="63"), [("condition %s" % tf(v), {"ee": v}, v) for v in TF])
    def presenc():
        nm = "sequence_presence_optChild_pres_acn_expression_encode"
        t = j.text(nm, p="pp", sAcc=amp, sChName="child", sAcnExpression="ee", soExistVar="ev", sErrCode="63")
        for e, x in itertools.product(TF, TF):
            def th(e=e, x=x):
                m = j.run(t, {"ee": e, "pp.exist.child": x})
                if bool(m.mem["ret"]) != (e == x): return "the encoder %s" % ("goes on" if m.mem["ret"] else "refuses the value")
                if not m.mem["ret"] and not m.mem["*pErrCode"]: return "no error code is set"
            yield "condition %s, component %s" % (tf(e), "present" if x else "absent"), th
    j.each("sequence_presence_optChild_pres_acn_expression_encode", presenc)
    # ---- children follow the presence bits
    for name in ("sequence_mandatory_child_encode", "sequence_mandatory_child_decode", "sequence_acn_child_decode"):
        def plain(name=name):
            t = j.text(name, sChName="child", sChildContent="ss1();", soSaveBitStrmPosStatement="snap();")
            for ok in TF:
                def th(ok=ok):
                    ran, sn = [], []
                    def st(m, a): ran.append(len(sn)); m.mem["ret"] = ok
                    m = j.run(t, {}, {"ss1": st, "snap": lambda m, a: sn.append(1)})
                    if len(ran) != 1: return "the component is coded %d times" % len(ran)
                    if ran != [1]: return "the position of the component is not recorded before it is coded"
                    if bool(m.mem["ret"]) != bool(ok): return "the status of the component is lost"
                yield "component that %s" % ("succeeds" if ok else "fails"), th
        j.each(name, plain)
    for base in ("sequence_optional_child", "sequence_default_child", "sequence_always_present_child", "sequence_always_absent_child"):
        for d in ("encode", "decode"):
            name = base + "_" + d
            def jobs(name=name, base=base, d=d):
                kw = dict(p="pp", sAcc=amp, sChName="child", sChildContent="ss1();", soChildContent="ss1();", sInitWithDefaultValue="dflt();", soSaveBitStrmPosStatement="snap();")
                t = j.text(name, **{k: v for k, v in kw.items() if k in j.g.T[name].params})
                if lang == "c": t = re.sub(r"\(void\)\s*\w+\s*;", "", t)
                for x, ok in itertools.product(TF, TF):
                    def th(x=x, ok=ok):
                        ran, df, sn = [], [], []
                        def st(m, a): ran.append(len(sn)); m.mem["ret"] = ok
                        m = j.run(t, {"pp.exist.child": x}, {"ss1": st, "dflt": lambda m, a: df.append(1), "snap": lambda m, a: sn.append(1)})
                        if not sn or 0 in ran: return "the position of the component is not recorded before it is coded"
                        want = {"sequence_always_present_child": 1, "sequence_always_absent_child": 0}.get(base, x)
                        if bool(ran) != bool(want): return "the component is %scoded" % ("" if ran else "not ")
                        if len(ran) > 1: return "the component is coded twice"
                        if d == "decode" and j.val(m, "pp.exist.child") != want: return "the presence bit is %s" % shown(j.val(m, "pp.exist.child"))
                        if base == "sequence_default_child" and d == "decode" and bool(df) != (not x): return "the default value is %sset" % ("" if df else "not ")
                        if want and bool(m.mem["ret"]) != bool(ok): return "the status of the component is lost"
                        if not want and not m.mem["ret"]: return "the coder fails"
                    yield "presence bit %d, component %s" % (x, "succeeds" if ok else "fails"), th
            j.each(name, jobs)
    # ---- what the decoder concludes: alternatives
    def prewhen(how):
        name = "ChoiceChild_preWhen_decode"
        def jobs():
            vals = {"bool": [1, 0], "int": [5, 0, 1234], "str": ["xy", "xyz", "q"], "two": [5, 5, 6]}[how]
            cs = []
            for i, v in enumerate(vals):
                if how == "bool": c = [j.text("ChoiceChild_preWhen_bool_condition", sExtFld="det%d" % i)]
                elif how == "int": c = [j.text("ChoiceChild_preWhen_int_condition", sExtFld="det", sVal=str(v))]
                elif how == "str": c = [j.text("ChoiceChild_preWhen_str_condition", sExtFld="det", sVal=v, arrsNullChars=["NUL"] * (4 - len(v)), arruVal=[ord(x) for x in v] + [0])]
                else: c = [j.text("ChoiceChild_preWhen_int_condition", sExtFld="det", sVal=str(v)), j.text("ChoiceChild_preWhen_int_condition", sExtFld="tag", sVal=str(i))]
                cs.append(j.text(name, p="pp", sAcc=amp, sChildID=sorted(KS)[i], sChildBody="ss%d();" % i, arrsConditions=c, bFirst=i == 0, sChildName="cn", sChildTypeDef="CT", sChoiceTypeName="CHT", sChildInitExpr="0"))
            t = j.text("Choice_preWhen_decode", p="pp", sAcc=amp, arrsChildren=cs, sErrCode="64")
            pad = (lambda s: s + "\0" * (5 - len(s))) if lang == "a" else (lambda s: s)
            cases = {"bool": [({"det0": a, "det1": b}, 0 if a else 1 if b else None) for a in TF for b in TF], "int": [({"det": v}, {5: 0, 0: 1, 1234: 2}.get(v)) for v in (0, 1, 4, 5, 6, 1234)],
                     "str": [({"det": pad(v)}, {"xy": 0, "xyz": 1, "q": 2}.get(v)) for v in ("", "x", "xy", "xyz", "xyzz", "q", "qq", "w")], "two": [({"det": v, "tag": g}, {(5, 0): 0, (5, 1): 1, (6, 2): 2}.get((v, g))) for v in (5, 6, 7) for g in range(3)]}[how]
            for mem, want in cases:
                for ok in TF:
                    def th(mem=mem, want=want, ok=ok):
                        ran = []
                        def st(i):
                            def f(m, a): ran.append(i); m.mem["ret"] = ok; m.mem["*pErrCode"] = 0 if ok else 65
                            return f
                        m = j.run(t, dict(KS, **mem, **{"pp.kind": 0}), {"ss%d" % i: st(i) for i in range(3)})
                        if ran != ([] if want is None else [want]): return "alternatives %s are decoded instead of %s" % (ran, [] if want is None else [want])
                        if want is not None and j.val(m, "pp.kind") != want + 1: return "the value is marked as alternative %s instead of %d" % (shown(j.val(m, "pp.kind")), want + 1)
                        if bool(m.mem["ret"]) != bool(want is not None and ok): return "the result is %s" % tf(m.mem["ret"])
                        if not m.mem["ret"] and not m.mem["*pErrCode"]: return "no error code is set"
                    yield "determinants %s, alternative %s" % ({k: (v.rstrip("\0") if isinstance(v, str) else v) for k, v in mem.items()}, "succeeds" if ok else "fails"), th
        j.each(name, jobs)
    for how in ("bool", "int", "str", "two"): prewhen(how)
    def whole(enc):
        """kind -> determinant by name or index"""
        d = "encode" if enc else "decode"
        for child, name in (("ChoiceChild_Enum", "Choice_Enum"), ("ChoiceChild_preWhen", "Choice_preWhen"), ("ChoiceChild", "Choice")):
            if not enc and child == "ChoiceChild_preWhen": continue
            def jobs(child=child, name=name):
                for dfr in ((False, True) if name == "Choice_Enum" else (False,)):
                    cs = []
                    for i, k in enumerate(sorted(KS)):
                        kw = dict(p="pp", sAcc=amp, sChildID=k, sChildBody="ss%d();" % i, sChildContent="ss%d();" % i, sEnmName="en%d" % i, nChildIndex=i, nLastItemIndex=2, nIndexSizeInBits=2, arrsConditions=[], bFirst=i == 0, sChildName="cn", sChildTypeDef="CT", sChoiceTypeName="CHT", sChildInitExpr="0")
                        cs.append(j.text(child + "_" + d, **{x: y for x, y in kw.items() if x in j.g.T[child + "_" + d].params}))
                    kw = dict(p="pp", sAcc=amp, arrsChildren=cs, sErrCode="66", sEnmExtFld="det", bIsDeferred=dfr, nLastItemIndex=2, nIndexSizeInBits=2, sChoiceIndexName="ix")
                    t = j.text(name + "_" + d, **{x: y for x, y in kw.items() if x in j.g.T[name + "_" + d].params})
                    if lang == "a": t = re.sub(r"\bcase\s+[\w.]+\s*\(\s*ix\s*\)\s*is", "case ix is", t)
                    for i, ok in itertools.product((0, 1, 2, 3), TF):
                        if lang == "a" and i == 3 and (not dfr or enc): continue
                        for rd in TF if name == "Choice" and not enc else (1,):
                            def th(i=i, ok=ok, rd=rd, t=t, name=name):
                                ran, idx = [], []
                                def st(q):
                                    def f(m, a): ran.append(q); m.mem["ret"] = ok; m.mem["*pErrCode"] = 0 if ok else 65
                                    return f
                                def encw(m, a):
                                    if ran: raise Bad("the index follows the alternative")
                                    if m.ev(a[2]) != 0: raise Bad("the index is written with another lower limit")
                                    idx.append(m.ev(a[1]))
                                def decw(m, a):
                                    if rd: m.mem["ix"] = i
                                    if lang == "a": m.mem["ret"] = rd
                                    return rd
                                calls = {"ss%d" % q: st(q) for q in range(3)}
                                calls.update({"BitStream_EncodeConstraintWholeNumber": encw, "Enc_ConstraintWholeNumber": encw, "BitStream_DecodeConstraintWholeNumber": decw, "Dec_ConstraintWholeNumber": decw})
                                mem = dict(KS, en0=30, en1=31, en2=32, det=30 + i, ix=9, bs=0, ERR_INVALID_ENUM_VALUE=11, **{"pp.kind": i + 1 if enc else 0})
                                m = j.run(t, mem, calls)
                                want = [i] if i < 3 and rd else []
                                if ran != want: return "alternatives %s are coded instead of %s" % (ran, want)
                                if enc and name == "Choice" and want and idx != want: return "the index written is %s instead of %s" % (idx, want)
                                if not enc and want and j.val(m, "pp.kind") != i + 1: return "the value is marked as alternative %s instead of %d" % (shown(j.val(m, "pp.kind")), i + 1)
                                if bool(m.mem["ret"]) != bool(want and ok): return "the result is %s" % tf(m.mem["ret"])
                                if not m.mem["ret"] and not m.mem["*pErrCode"]: return "no error code is set"
                            yield "%s %d, alternative %s%s" % ("alternative" if enc else "determinant of alternative", i, "succeeds" if ok else "fails", "" if rd else ", index cannot be read"), th
            j.each(name + "_" + d, jobs)
    whole(True); whole(False)
    def absent(d):
        name = "ChoiceChildAlwaysAbsent_" + d
        def jobs():
            nx = "ChoiceChild_" + d
            kw = dict(p="pp", sAcc=amp, sChildID="alt_b", sChildContent="ss1();", nChildIndex=1, nLastItemIndex=2, nIndexSizeInBits=2, sChildName="cn", sChildTypeDef="CT", sChoiceTypeName="CHT", sChildInitExpr="0")
            cs = [j.text(name, p="pp", sAcc=amp, sChildID="alt_a", nChildIndex=0, sErrorCodeName="67"), j.text(nx, **{x: y for x, y in kw.items() if x in j.g.T[nx].params})]
            kw = dict(p="pp", sAcc=amp, arrsChildren=cs, sErrCode="66", nLastItemIndex=2, nIndexSizeInBits=2, sChoiceIndexName="ix")
            t = j.text("Choice_" + d, **{x: y for x, y in kw.items() if x in j.g.T["Choice_" + d].params})
            if lang == "a": t = re.sub(r"\bcase\s+[\w.]+\s*\(\s*ix\s*\)\s*is", "case ix is", t)
            def th():
                def decw(m, a):
                    m.mem["ix"] = 0
                    if lang == "a": m.mem["ret"] = 1
                    return 1
                def other(m, a): raise Bad("another alternative is coded in its place")
                m = j.run(t, dict(KS, bs=0, ix=9, **{"pp.kind": 1}), {"BitStream_DecodeConstraintWholeNumber": decw, "Dec_ConstraintWholeNumber": decw, "BitStream_EncodeConstraintWholeNumber": other, "Enc_ConstraintWholeNumber": other, "ss1": other})
                if m.mem["ret"]: return "an alternative that is declared absent is taken"
                if not m.mem["*pErrCode"]: return "no error code is set"
            yield "that alternative", th
        j.each(name, jobs)
    absent("encode"); absent("decode")
    # ---- fields whose value is known only later: room first, value once, error if it does not fit
    B = "bs" if lang == "a" else "pBitStrm"
    def names(m, a): return [m.key(x) for x in a]
    def has(m, a, k): return any(q in (k, k.lower()) for q in names(m, a))
    CONV = {"adaasn1rtl.Asn1UInt": lambda m, a: m.ev(a[0])}
    for v in ("value", "ptr"):
        for sz in ("", "_with_size"):
            def init(name="acn_deferred_det_init_%s%s_encode" % (v, sz), sz=sz, v=v):
                kw = dict(sInitFuncName="Init_det", sDetName="det")
                if sz: kw["nBits"] = 16
                t = j.text(name, **kw)
                def th():
                    ran = []
                    def f(m, a):
                        ran.append(1)
                        if not has(m, a, "det") or not has(m, a, B): raise Bad("room is made for another field or in another stream")
                        if lang == "c" and (v == "value") != any(isinstance(x, c_ast.UnaryOp) and x.op == "&" and m.key(x) == "det" for x in a): raise Bad("the field is handed over in the wrong way")
                        if sz and 16 not in [m.ev(x) for x in a if isinstance(x, c_ast.Constant)]: raise Bad("room of another size is made")
                    j.run(t, {"bs": 1, "det": 1}, {"Init_det": f})
                    return None if len(ran) == 1 else "room for the field is made %d times" % len(ran)
                yield "field%s" % (" of 16 bits" if sz else ""), th
            j.each("acn_deferred_det_init_%s%s_encode" % (v, sz), init)
        for sz in ("", "_with_size", "_str"):
            nm = "acn_deferred_det_patch_%s%s_encode" % (v, sz)
            def patch(nm=nm, sz=sz, v=v):
                kw = dict(sPatchFuncName="Patch_det", sDetName="det", sValue="vv", sErrCode="68")
                if sz: kw["nBits"] = 16
                t = j.text(nm, **kw)
                for ok in TF:
                    def th(ok=ok):
                        ran, aft = [], []
                        def f(m, a):
                            ran.append(1)
                            if not has(m, a, "det") or not has(m, a, B): raise Bad("another field is patched, or another stream")
                            if not has(m, a, "vv") and not any(isinstance(x, c_ast.FuncCall) and x.args and has(m, x.args.exprs, "vv") for x in a): raise Bad("another value is patched in")
                            if lang == "c" and (v == "value") != any(isinstance(x, c_ast.UnaryOp) and x.op == "&" and m.key(x) == "det" for x in a): raise Bad("the field is handed over in the wrong way")
                            if sz and 16 not in [m.ev(x) for x in a if isinstance(x, c_ast.Constant)]: raise Bad("a field of another size is patched")
                            if lang == "a": m.mem["ret"] = ok
                            return ok
                        m = j.run(t + "\nafter_it();", {"bs": 1, "det": 1, "vv": 5}, dict(CONV, Patch_det=f, after_it=lambda m, a: aft.append(m.mem["ret"])))
                        if len(ran) != 1: return "the field is patched %d times" % len(ran)
                        if ok and aft != [1]: return "the encoder gives up although the value fits"
                        if not ok and aft and aft[0]: return "the encoder goes on although the value does not fit or differs from an earlier one"
                        if not ok and aft: return "later statements run although the value does not fit or differs from an earlier one"
                        if not ok and not m.mem["*pErrCode"]: return "no error code is set"
                    yield "value that %s" % ("fits" if ok else "does not fit"), th
            j.each(nm, patch)
    for sz in ("", "_with_size", "_str"):
        nm = "acn_deferred_det_fallback_value%s_encode" % sz
        def fall(nm=nm, sz=sz):
            kw = dict(sPatchFuncName="Patch_det", sDetName="det", sDefaultVal="vv")
            if sz: kw["nBits"] = 16
            t = j.text(nm, **kw)
            for st in TF:
                def th(st=st):
                    ran = []
                    j.run(t, {"bs": 1, "det": 1, "vv": 5, "det.is_set": st}, dict(CONV, Patch_det=lambda m, a: ran.append(1) or 1))
                    return None if bool(ran) != bool(st) else "the default is %s" % ("written over the value" if st else "not written")
                yield "value %sset" % ("" if st else "not "), th
        j.each(nm, fall)
    if lang == "c":
        for nm in ("acn_deferred_det_copy_tmp_decode", "acn_deferred_det_copy_bool_tmp_decode", "acn_deferred_det_copy_enum_tmp_decode"):
            def cp(nm=nm):
                t = j.text(nm, sDetAccess="det.value", sTmpName="tt", **({"sEnumTypeName": "ET"} if "enum" in nm else {}))
                for x in (0, 1, 7):
                    def th(x=x):
                        m = j.run(t, {"tt": x, "det.value": 99})
                        return None if j.val(m, "det.value") == x else "the decoded field is taken for %s" % shown(j.val(m, "det.value"))
                    yield "field %d" % x, th
            j.each(nm, cp)
    return j

def t09(rep, tier):
    if ctempl.c_parser is None: raise AnalysisError("pycparser is not available")
    report(rep, [lang_job(rep, "c"), lang_job(rep, "a")])
    rep.cov["rule"] = "inserted fields get the value the encoded value demands, only along paths that exist, and equal for all components that share the field, or the encoder reports an error; the decoder concludes presence and alternative exactly from that value"
