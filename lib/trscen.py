"""Round-trip scenarios of the C code templates (see tround): for every pair of an encode and a decode template, the
renderings for every assignment of the parameters that select text, each partition of the counts it handles, and the
compositions in which the generator nests templates."""
import re, itertools
import ctempl, tround
from ctempl import TD

NMAX = 40
ALPHA = [0x41, 0x42, 0x43, 0x5A]
NUMS = {"nMin": 3, "nMax": 40, "nUperMin": 3, "nUperMax": 40, "nSizeMin": 3, "nSizeMax": NMAX, "noSizeMin": 3, "noSizeMax": NMAX, "nMinSize": 3, "nMaxSize": NMAX, "nAsn1Min": 3, "nAsn1Max": NMAX, "nFixedSize": 7,
        "nLastItemIndex": 3, "nAlphabetLength": 4, "nCharSetSize": 4, "nSize": 11, "nBitPatternLength": 16, "nNibbles": 5, "nSizeInBytes": 6, "nIntVal": 7}
PATT = {"arruTrueValueAsByteArray": [0xA5, 0x60], "arruFalseValueAsByteArray": [0x5A, 0x80], "arruNullValueAsByteArray": [0xC3, 0x20], "arruNullBytes": [0x0D, 0x0A], "arrnAlphabetAsciiCodes": ALPHA}

def step(p, prm):
    """a nested step: one call that stands for the code of the nested part"""
    a = ", i" if prm in ("sInternalItem",) else ""
    return "ret = STEP_%s(pBitStrm%s); *pErrCode = ret ? 0 : ERR_INNER;" % (p, a)

def env_of(t, **over):
    e = {}
    for p in t.params:
        v = ctempl.base_value(p)
        if p in NUMS: v = NUMS[p]
        elif p in PATT: v = PATT[p]
        elif p in ctempl.STMTS: v = step(p, p)
        elif p == "i" or p == "sBLI": v = "i"
        elif p == "sSsuffix" or p == "sSuffix": v = ""
        elif p == "ptr": v = "&p"
        elif p in ("soSaveBitStrmPosStatement",): v = "snap = *pBitStrm;"
        elif p == "sReqBytesForUperEncoding" or p == "sReqBytesForAcnEncoding": v = 64
        elif p == "sReqBitsForUperEncoding": v = 512
        if p in over: v = over[p]
        e[p] = v
    return e

def pairs(g):
    for n in list(g.T):
        if n.endswith("_encode") and n[:-7] + "_decode" in g.T and not g.T[n].nogen and n in g.body and n[:-7] + "_decode" in g.body: yield n[:-7]

def asgs(g, b):
    cs = []
    for d in ("encode", "decode"):
        for c in g.conds("%s_%s" % (b, d)):
            if c not in cs: cs.append(c)
    for vals in itertools.product((True, False), repeat=min(len(cs), 6)): yield dict(zip(cs, vals))

def apply(env, asg):
    e = dict(env)
    for p, on in asg.items():
        if p in e and not on: e[p] = False if isinstance(e[p], bool) else [] if p.startswith("arr") else None
    return e

class S:
    """one scenario"""
    def __init__(s, name, enc, dec, mem=None, dmem=None, scen=None, want=None): s.name, s.enc, s.dec, s.mem, s.dmem, s.scen, s.want = name, enc, dec, mem or {}, dmem or {}, scen or {}, want or {}

def both(g, b, env): return g.render(b + "_encode", env), g.render(b + "_decode", env)

def counts(lo, hi): return sorted({lo, lo + 1, (lo + hi) // 2, hi - 1, hi})

SKIP = re.compile(r"^(EmitTypeAssignment|MappingFunctionDeclaration|sparkAnnotations|InitDet|PatchDet)")

class Skip(Exception): pass

def generic(g, b):
    t = g.T[b + "_encode"]
    for asg in asgs(g, b):
        env = apply(env_of(t), asg)
        if env.get("soCheckExp"): env["soCheckExp"] = "check_ok"
        if "arruNullValueAsByteArray" in env and not env["arruNullValueAsByteArray"]: env["nSize"] = 0
        if b.startswith("Fragmentation_sqf"): continue
        e, d = both(g, b, env)
        ext = env.get("sExtFld") or env.get("sExtField")
        has = "p->nCount" in e
        scen = {"ext": (ext,) if ext else (), "true": ("check_ok",), "noop": ("init_default",)}
        if ext and not has and "arr" not in e and "sInternalItem" not in t.params:        # a string, its length is given by the field
            yield S(b, e, d, {}, {}, scen); continue
        for n in counts(3, NMAX) if has or ext or "strlen" in e else [None]:
            mem, dmem = {}, {}
            if has: mem["p->nCount"] = n
            if ext: dmem[ext] = n if has else NMAX
            if "strlen" in e: mem["strlen:p"] = n
            if "GetCharIndex" in e:
                for c in ALPHA: yield S(b, e, d, {"p[2]": c, "i": 2}, {"i": 2}, scen)
            elif re.match("Boolean", b):
                for v in (0, 1): yield S(b, e, d, {"p": v}, {}, scen)
            elif "exist." in e + d:
                for v in (0, 1): yield S(b, e, d, dict(mem, **{"p->exist.sChName": v}), dmem, scen)
            else:
                yield S(b, e, d, mem, dmem, scen, {"p[%d]" % n: 0} if "strlen" in e else {"p[7]": 0} if b == "str_FixedSize" else {})

# ---------------------------------------------------------------------------------------------- compositions
def call(p): return "ret = STEP_%s(pBitStrm); *pErrCode = ret ? 0 : ERR_INNER;" % p
def kinds(n=3): return ["ALT_%d" % k for k in range(n)]
def nest(g, parts):
    """the generator nests the parts of a sequence: each is coded if the one before was"""
    t = g.T["JoinItems"] if "JoinItems" in g.T else None
    out = None
    for p in reversed(parts):
        out = g.render("JoinItems", {"sPart": p, "soNestedPart": out}) if t else p + ("\nif (ret) { %s }" % out if out else "")
    return out

def choice(g, whole, child, extra=None):
    for n in (1, 2, 5):
        env = env_of(g.T[whole + "_encode"], nLastItemIndex=n - 1, sChoiceIndexName="idx")
        ch = {d: [g.render("%s_%s" % (child, d), env_of(g.T[child + "_encode"], sChildID=k, nChildIndex=i, nLastItemIndex=n - 1, sChildContent=call("alt%d" % i), sChildBody=call("alt%d" % i))) for i, k in enumerate(kinds(n))] for d in ("encode", "decode")}
        e = g.render(whole + "_encode", dict(env, arrsChildren=ch["encode"])); d = g.render(whole + "_decode", dict(env, arrsChildren=ch["decode"]))
        for k in kinds(n): yield S(child, e, d, {"p->kind": ("id", k)})

def prewhen(g):
    """alternatives chosen by the value of fields, which the update templates compute"""
    n = 3; vals = [7, 0, 1234]; strs = ["AB", "ABC", "X"]
    for how in ("int", "str", "bool"):
        ks = kinds(2 if how == "bool" else n)
        ce, cd, up = [], [], []
        for i, k in enumerate(ks):
            if how == "int": cond = g.render("ChoiceChild_preWhen_int_condition", env_of(g.T["ChoiceChild_preWhen_int_condition"], sExtFld="det", sVal=vals[i]))
            elif how == "str": cond = g.render("ChoiceChild_preWhen_str_condition", env_of(g.T["ChoiceChild_preWhen_str_condition"], sExtFld="det", sVal=strs[i]))
            else: cond = ("!" if i else "") + g.render("ChoiceChild_preWhen_bool_condition", env_of(g.T["ChoiceChild_preWhen_bool_condition"], sExtFld="det"))
            env = env_of(g.T["ChoiceChild_preWhen_encode"], sChildID=k, sChildBody=call("alt%d" % i), arrsConditions=[cond, "other_ok"], bFirst=i == 0)
            ce.append(g.render("ChoiceChild_preWhen_encode", env)); cd.append(g.render("ChoiceChild_preWhen_decode", env))
            if how == "int": up.append(g.render("ChoiceDependencyIntPres_child", env_of(g.T["ChoiceDependencyIntPres_child"], v="det", sChildNamePresent=k, sChildRetVal=vals[i])))
            elif how == "str": up.append(g.render("ChoiceDependencyStrPres_child", env_of(g.T["ChoiceDependencyStrPres_child"], v="det", sChildNamePresent=k, sChildRetVal=strs[i])))
        env = env_of(g.T["Choice_preWhen_encode"])
        e = g.render("Choice_preWhen_encode", dict(env, arrsChildren=ce)); d = g.render("Choice_preWhen_decode", dict(env, arrsChildren=cd))
        if up: e = g.render("ChoiceDependencyPres", env_of(g.T["ChoiceDependencyPres"], v="det", sChPath="p", arrsChoiceItems=up)) + "\n" + e
        for i, k in enumerate(ks):
            scen = {"true": ("other_ok",)}
            if up: scen["extval"] = {"det": "det"}
            yield S("Choice_preWhen (%s)" % how, e, d, {"p->kind": ("id", k)}, {} if up else {"det": 1 - i}, scen)

def choice_enum(g):
    ks, es = kinds(3), ["red", "green", "blue"]; ce, cd, up = [], [], []
    for i, k in enumerate(ks):
        env = env_of(g.T["ChoiceChild_Enum_encode"], sEnmName=es[i], sChildID=k, sChildBody=call("alt%d" % i))
        ce.append(g.render("ChoiceChild_Enum_encode", env)); cd.append(g.render("ChoiceChild_Enum_decode", env))
        up.append(g.render("ChoiceDependencyEnum_Item", env_of(g.T["ChoiceDependencyEnum_Item"], v="det", sChildCID=k, sEnumCName=es[i], bIsOptional=False)))
    for dfr in (False, True):
        env = env_of(g.T["Choice_Enum_encode"], sEnmExtFld="det", bIsDeferred=dfr)
        e = g.render("Choice_Enum_encode", dict(env, arrsChildren=ce)); d = g.render("Choice_Enum_decode", dict(env, arrsChildren=cd))
        e = g.render("ChoiceDependencyEnum", env_of(g.T["ChoiceDependencyEnum"], sV="det", sChPath="p", arrsChoiceEnumItems=up, bIsOptional=False)) + "\n" + e
        for k in ks: yield S("Choice_Enum", e, d, {"p->kind": ("id", k)}, {}, {"extval": {"det": "det"}}, )

def deferred_switch(g):
    """determinant values by alternative, as the deferred patching templates compute them"""
    ks = kinds(3)
    for how, vals in (("int", [7, 0, 1234]), ("str", ["AB", "ABC", "X"])):
        items = [g.render("acn_deferred_det_switch_case_" + how, {"sCaseName": k, "sVarName": "pres", "sValue": v}) for k, v in zip(ks, vals)]
        acc = g.render("acn_deferred_det_kind_access", {"p": "p", "sAcc": "->"})
        e = g.render("acn_deferred_det_switch_" + how, {"sVarName": "pres", "sKindAccess": acc, "arrsCaseItems": items})
        for k, v in zip(ks, vals): yield S("acn_deferred_det_switch_" + how, e + " det = pres;", "p->kind = %s;" % " : ".join("det == %s ? %s" % (x if how == "int" else '"%s"' % x, y) for x, y in zip(vals, ks)) .replace(";", "") [:-1] + "%s : NOKIND;" % ks[-1][-1], {"p->kind": ("id", k)}, {}, {"extval": {"det": "det"}})

def enum_uper(g):
    for n in (1, 3):
        names = ["name%d" % i for i in range(n)]
        env = env_of(g.T["Enumerated_encode"], nLastItemIndex=n - 1)
        it = {d: [g.render("Enumerated_item_" + d, {"p": "p", "sName": x, "nIndex": i, "nLastItemIndex": n - 1}) for i, x in enumerate(names)] for d in ("encode", "decode")}
        e = g.render("Enumerated_encode", dict(env, arrsItem=it["encode"])); d = g.render("Enumerated_decode", dict(env, arrsItem=it["decode"]))
        for x in names: yield S("Enumerated", e, d, {"p": ("id", x)})

TABLE = [-3, 5, 90, 1000]
def enum_search(g, b, codec=None):
    t = g.T[b + "_encode"]
    for asg in asgs(g, b):
        env = apply(env_of(t, sEnumIndex="enumIndex", sIntVal="intVal"), asg); ee, dd = dict(env), dict(env)
        if codec: ee["sActualCodecFunc"], dd["sActualCodecFunc"] = codec("intVal")
        e, d = g.render(b + "_encode", ee), g.render(b + "_decode", dd)
        m = {"td_encoded_values_array": TABLE, "td_encoded_values_array_count": 4}
        for v in TABLE: yield S(b, e, d, dict(m, p=v), dict(m))

def acn_int(g):
    def f(v):
        env = env_of(g.T["TwosComplement_ConstSize_8_encode"], p=v, soMF=None, soMFM=None)
        return tuple(g.render("TwosComplement_ConstSize_8_" + d, env) for d in ("encode", "decode"))
    return f

def enum_values(g):
    names, vals = ["red", "green", "blue"], [5, 1000, 0]
    ee, dd = acn_int(g)("intVal")
    it = {d: [g.render("Enumerated_item_" + d, env_of(g.T["Enumerated_item_encode"], sName=x, nItemIdx=v, sItemVal=v, sIntVal="intVal")) for x, v in zip(names, vals)] for d in ("encode", "decode")}
    env = env_of(g.T["EnumeratedEncValues_encode"], sIntVal="intVal")
    e = g.render("EnumeratedEncValues_encode", dict(env, arrsItem=it["encode"], sActualCodecFunc=ee)); d = g.render("EnumeratedEncValues_decode", dict(env, arrsItem=it["decode"], sActualCodecFunc=dd))
    for x in names: yield S("EnumeratedEncValues", e, d, {"p": ("id", x)})

def sequence(g, acn):
    """presence bits, then the children they announce"""
    for child in ("sequence_optional_child", "sequence_default_child"):
        t = g.T[child + "_encode"]
        for v in (0, 1):
            ctxs = []
            if acn:
                ctxs.append(("sequence_presence_optChild", {"soExistVar": "presenceBit"}, {}))
                ctxs.append(("sequence_presence_optChild_pres_acn_expression", {"sAcnExpression": "acn_expr", "soExistVar": "ev"}, {"true" if v else "false": ("acn_expr",)}))
                ctxs.append(("sequence_presence_optChild_pres_bool", {"sExtFldName": "det"}, {"dmem": {"det": v}}))
                ctxs.append(("sequence_presence_optChild_pres_int", {"sExtFldName": "det", "nIntVal": 9}, {"dmem": {"det": 9 if v else 3}}))
                ctxs.append(("sequence_presence_optChild_pres_str", {"sExtFldName": "det", "sVal": "YES"}, {"dmem": {"det": ("str", "YES" if v else "YE")}}))
            else:
                ctxs.append(("sequence_presence_bit", {}, {}))
                ctxs.append(("sequence_presence_bit_fix", {"sVal": v}, {}))
            for pb, over, sc in ctxs:
                e1, d1 = both(g, pb, env_of(g.T[pb + "_encode"], **over))
                init = "p->sChName = DEFAULT_V;"
                env = env_of(t, sChildContent=call("child"), sInitWithDefaultValue=init)
                e2, d2 = both(g, child, env)
                if pb.endswith("pres_bool"):
                    e1 = g.render("PresenceDependency", {"v": "det", "sSeqPath": "p", "sAcc": "->", "sChildName": "sChName"}); sc = {"extval": {"det": "det"}, "init": True}
                scen = {k: x for k, x in sc.items() if k != "dmem"}
                want = {"p->sChName": ("id", "DEFAULT_V")} if child.startswith("sequence_default") and not v else {"p->sChName": None}
                yield S("%s + %s" % (pb, child), nest(g, [e1, e2]) if e1.strip() else e2, nest(g, [d1, d2]), {"p->exist.sChName": v}, sc.get("dmem", {}), scen, want)

def presdet(g):
    """the presence of a component, as the value the deferred determinant is given"""
    x = g.render("acn_deferred_det_value_presence_bool", {"p": "p", "sAcc": "->", "sChildName": "sChName"})
    env = env_of(g.T["sequence_presence_optChild_pres_bool_encode"], sExtFldName="det")
    d = g.render("sequence_presence_optChild_pres_bool_decode", env)
    for v in (0, 1): yield S("acn_deferred_det_value_presence_bool", "det = %s;" % x, d, {"p->exist.sChName": v}, {}, {"extval": {"det": "det"}})

def fixed_presence(g):
    for b, v in (("sequence_always_present_child", 1), ("sequence_always_absent_child", 0)):
        env = env_of(g.T[b + "_encode"], soChildContent=call("child"), sChildContent=call("child"))
        e, d = both(g, b, env)
        yield S(b, e, d, {"p->exist.sChName": v}, {}, {}, {})

def acn_child(g):
    b = "sequence_acn_child"; e, d = both(g, b, env_of(g.T[b + "_encode"], sChName="det", sChildContent=call("det")))
    yield S(b, e, d, {"det_is_initialized": 1})

def sized(g):
    """contents whose length is kept in another field, with the template that computes it"""
    for b in [x for x in pairs(g) if re.search(r"external_field|External_Field", x)]:
        t = g.T[b + "_encode"]
        for asg in asgs(g, b):
            env = apply(env_of(t), asg); ext = env.get("sExtFld")
            e, d = both(g, b, env)
            fix = "p->nCount" not in e and "CharIndex" not in b and "String_Ascii" not in b
            if fix: up = g.render("SizeDependencyFixedSize", {"v": ext, "nFixedSize": NMAX})
            else:
                cnt = g.render("getSizeableSize", {"p": "p", "sAcc": "->", "bIsUnsigned": True}) if "p->nCount" in e else g.render("getStringSize", {"p": "p"})
                up = g.render("SizeDependency", {"v": ext, "sCount": cnt, "nMin": 3, "nMax": NMAX, "bCheckRange": True, "sTypedefName": "T"})
            for n in counts(3, NMAX) if not fix else [NMAX]:
                mem = {"p->nCount": n} if "p->nCount" in e else {"strlen:p": n}
                if fix: mem = {}
                yield S(b, up + "\n" + e, d, mem, {}, {"ext": (ext,), "extval": {ext: ext}, "inits": (ext,)}, {})

def fragments(g):
    """fixed size lists in blocks of 64K, 48K, 32K, 16K and a rest"""
    for bits in (False, True):
        for total in (65536, 65536 + 49152 + 128, 2 * 65536 + 32768 + 127, 65536 + 16384 + 1, 3 * 65536 + 16383):
            res = {}
            for d in ("encode", "decode"):
                common = dict(sInternalItem=step("item", "sInternalItem"), bIsBitStringType=bits, sCurOffset="off", sCurBlockSize="blk", sBlockIndex="bi", sBLI="i", sRemainingItemsVar="rem")
                r = total; parts = []
                parts.append(g.render("FixedSize_Fragmentation_sqf_64K_" + d, env_of(g.T["FixedSize_Fragmentation_sqf_64K_" + d], nBlocks64K=r // 65536, **common))); r %= 65536
                for sz, i in ((49152, "0xC3"), (32768, "0xC2"), (16384, "0xC1")):
                    if r >= sz: parts.append(g.render("FixedSize_Fragmentation_sqf_small_block_" + d, env_of(g.T["FixedSize_Fragmentation_sqf_small_block_" + d], nBlockSize=sz, sBlockId=i, **common))); r -= sz
                if r: parts.append(g.render("FixedSize_Fragmentation_sqf_remaining_" + d, env_of(g.T["FixedSize_Fragmentation_sqf_remaining_" + d], nRemainingItemsVar=r, bRemainingItemsWithinByte=r <= 127, **common)))
                res[d] = g.render("FixedSize_Fragmentation_sqf_" + d, env_of(g.T["FixedSize_Fragmentation_sqf_" + d], arrsEncodingParts=[nest(g, parts)], nFixedSize=total, bIsBitStringType=False))
            yield S("FixedSize_Fragmentation_sqf", res["encode"], res["decode"], {}, {}, {"total": (total, bits)})

def fragmented(g):
    b = "Fragmentation_sqf"; t = g.T[b + "_encode"]
    for bits, var, asc in ((True, True, False), (True, False, False), (False, True, False), (False, False, False), (False, True, True), (False, False, True)):
        for n in (0, 1, 127, 128, 16383, 16384, 16385, 32767, 32768, 49151, 49152, 65535, 65536, 65537, 65536 + 16384, 2 * 65536 + 49152 + 129, 200000):
            env = env_of(t, bIsBitStringType=bits, bIsVariableSize=var, bIsAsciiString=asc, sInternalItem=step("item", "sInternalItem"), nSizeMin=0 if var else n, nSizeMax=200000 if var else n, sCurOffset="off", sCurBlockSize="blk", sBlockIndex="bi", sBLI="i", sRemainingItemsVar="rem", sLengthTmp="lenTmp")
            e, d = both(g, b, env); mem = {}
            if asc: mem["strlen:p"] = n
            elif var: mem["p->nCount"] = n
            want = {"p[%d]" % n: 0} if asc else {}
            yield S(b, e, d, mem, {}, {"total": (n, bits)}, want)

def containing(g, acn):
    for b in [x for x in pairs(g) if "containing" in x]:
        t = g.T[b + "_encode"]
        if b.endswith("ext_field_func"): continue
        for asg in asgs(g, b):
            for ib in (24, 40, 17, 1):
                octs = b.startswith("octet")
                if ib % 8 and octs and "deferred" in b: continue          # a deferred octet string takes whole octets (see DESIGN.md)
                size = (ib + 7) // 8 if octs else ib
                fixed = asg.get("bFixedSize")
                env = apply(env_of(t, sFuncName="Inner_Codec", sDetParamName="det", sPatchFuncName="Patch_det", nMinSize=size if fixed else 0, nMaxSize=size if fixed else 100, sBody=call("body")), asg)
                e, d = both(g, b, env)
                scen = {"innerbits": ib, "patch": ("Patch_det",), "dets": ("det",), "errok": "deferred" in b}
                if "wrapper" in b and octs: e = e.replace("STEP_body", "STEP8_body"); d = d.replace("STEP_body", "STEP8_body")
                yield S(b, e, d, {}, {}, scen)

def containing_ext(g):
    for b, octs in (("octet_string_containing_ext_field_func", True), ("bit_string_containing_ext_field_func", False)):
        t = g.T[b + "_encode"]
        for ib in (24, 40, 17, 1):
            inner = "ret = Inner_Codec(p, pBitStrm, pErrCode, FALSE);"
            up = g.render("SizeDependency_oct_str_containing", env_of(g.T["SizeDependency_oct_str_containing"], v="det", bIsOctet=octs, sInner=inner, p="p"))
            env = env_of(t, sFuncName="Inner_Codec", sExtField="det", soInner="ret = Inner_Codec(p, pBitStrm, pErrCode);")
            e, d = both(g, b, env)
            yield S(b, up + "\n" + e, d, {}, {}, {"innerbits": ib, "extval": {"det": "det"}, "inits": ("det",)})

def rootext(g):
    body = {d: g.render("IntFullyConstraint_" + d, env_of(g.T["IntFullyConstraint_" + d], p="p")) for d in ("encode", "decode")}
    for b in ("IntRootExt", "IntRootExt2"):
        e = g.render(b + "_encode", env_of(g.T[b + "_encode"], sIntBody=body["encode"], sRootBaseConstraint="in_root")); d = g.render(b + "_decode", env_of(g.T[b + "_decode"], sIntBody=body["decode"], sRootBaseConstraint="in_root"))
        for v in (3, 17, 40): yield S(b, e, d, {"p": v}, {}, {"true": ("in_root",)})
        if b == "IntRootExt2": yield S(b, e, d, {"p": 65}, {}, {"false": ("in_root",)})

def all_scenarios(g, gn):
    special = set()
    comp = []
    if gn == "uper":
        comp = [(("choice", "choice_child"), lambda: choice(g, "choice", "choice_child")), (("Enumerated", "Enumerated_item"), lambda: enum_uper(g)), (("Enumerated_no_switch",), lambda: enum_search(g, "Enumerated_no_switch")),
                (("sequence_optional_child", "sequence_default_child", "sequence_presence_bit_fix"), lambda: sequence(g, False)), (("FixedSize_Fragmentation_sqf", "FixedSize_Fragmentation_sqf_64K", "FixedSize_Fragmentation_sqf_small_block", "FixedSize_Fragmentation_sqf_remaining"), lambda: fragments(g)),
                (("Fragmentation_sqf",), lambda: fragmented(g)), (("octet_string_containing_func", "bit_string_containing_func"), lambda: containing(g, False)), (("IntRootExt", "IntRootExt2"), lambda: rootext(g))]
    elif gn == "acn":
        comp = [(("Choice", "ChoiceChild"), lambda: choice(g, "Choice", "ChoiceChild")), (("ChoiceChild_preWhen", "Choice_preWhen"), lambda: prewhen(g)), (("ChoiceChild_Enum", "Choice_Enum"), lambda: choice_enum(g)),
                (("EnumeratedEncValues", "Enumerated_item"), lambda: enum_values(g)), (("EnumeratedEncValues_no_switch",), lambda: enum_search(g, "EnumeratedEncValues_no_switch", acn_int(g))),
                (("sequence_optional_child", "sequence_default_child", "sequence_presence_optChild_pres_acn_expression", "sequence_presence_optChild_pres_bool", "sequence_presence_optChild_pres_int", "sequence_presence_optChild_pres_str"), lambda: sequence(g, True)),
                (("sequence_always_present_child", "sequence_always_absent_child"), lambda: fixed_presence(g)), (("sequence_acn_child",), lambda: acn_child(g)), ((), lambda: sized(g)), ((), lambda: presdet(g)),
                (tuple(x for x in pairs(g) if "containing" in x and not x.endswith("ext_field_func")), lambda: containing(g, True)), (("octet_string_containing_ext_field_func", "bit_string_containing_ext_field_func"), lambda: containing_ext(g))]
    for names, f in comp: special |= set(names)
    for names, f in comp: yield names, f
    for b in pairs(g):
        if b in special or SKIP.match(b) or re.match(r"acn_deferred_det|ChoiceChildAlwaysAbsent", b): continue
        yield (b,), (lambda b=b: generic(g, b))
