"""Rendered C templates as syntax trees: each template is rendered with placeholder arguments for every assignment of the
parameters that select text, and parsed in the context it is meant for (statements, expression, declarations, ...)."""
import sys, re, glob, itertools
for p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
    if p not in sys.path: sys.path.append(p)
try:
    from pycparser import c_parser, c_ast
except ImportError:
    c_parser = None
import stg
from common import AnalysisError

INNER = "ret = INNER_STEP(pBitStrm, pErrCode); *pErrCode = ret ? 0 : ERR_INNER;"
STMTS = {"sContent", "sInternalItem", "sChildContent", "soChildContent", "sChildBody", "sActualCodecFunc", "sBody", "sMainBody", "soInner", "sInner", "soNestedPart", "sNestedPart",
         "sIntBody", "sUpdateStatement", "sStatement", "sInnerStatement", "soInnerStatement", "sPatchCall", "sPreBlock", "sStat", "sStat1", "sStat2", "soCallAux", "sNestedStatements",
         "sGenerateDatFile", "sInitializeTcData", "sChildCaseInit", "sPart"}
FIXED = {"soSaveBitStrmPosStatement": "snap = *pBitStrm;", "sInitWithDefaultValue": "init_default();", "soInitWithDefaultValue": "init_default();", "sChildInitExpr": "init_expr", "soCheckExp": "check_stmt();"}
ERRS = re.compile(r"^s\w*Err(or)?Code\w*$")
ERRVAL = re.compile(r"^ERR_[A-Z]*ERR(OR)?CODE[A-Z]*$")
CAND = {  # what a list or free text parameter may stand for
    "stmt": INNER, "id": "IDENT", "case": "case CASE_A: %s break;" % INNER, "decl": "int decl_a;", "member": "int member_a;", "ifc": "if (cond_a) { %s }" % INNER, "param": "int prm_a", "enumr": "ENUM_A = 1",
    "str": '"text"', "stmt2": "ret = TRUE;", "proto": "extern int proto_a(int x);", "designated": ".member_a = 1"}
CONTEXTS = [("stmts", "void F(void) { %s }"), ("expr", "void F(void) { xx = %s ; }"), ("cases", "void F(void) { switch(k) { %s } }"), ("elseif", "void F(void) { if (c0) { } %s }"),
            ("unit", "%s"), ("init", "int F[] = %s ;"), ("members", "struct S { %s };"), ("designated", "struct S F = { %s };"), ("enum", "enum S { %s };"), ("params", "void F(%s);"), ("type", "%s F;"), ("stmt", "void F(void) { %s ; }"),
            ("ifbody", "void F(void) { if (c0) { %s }"), ("arg", "void F(void) { f(%s); }")]
TYPES = ("byte flag asn1SccSint asn1SccUint asn1Real asn1SccSint32 asn1SccUint32 asn1SccSint64 asn1SccUint64 asn1SccUint8 asn1SccUint16 asn1SccSint8 asn1SccSint16 asn1SccReal32 asn1SccReal64 BitStream ByteStream "
         "AcnBitStreamPos AcnInsertedFieldRef XmlAttributeArray size_t uint8_t int8_t uint16_t int16_t uint32_t int32_t uint64_t int64_t FILE Asn1ObjectIdentifier Token bool").split()

SINGLE = {"arrsEncodingParts"}        # the generator passes one nested part (nestChildItems)
PREF = [(r"arrsArgs$", "id"), (r"arrsLocalDecl|arrsLocalVar|arrsVars$", "decl"), (r"arrs\w*Statement", "stmt"), (r"arrsGetFirst", "ifc"), (r"arrs\w*(Equal|Cond|CheckPath)", "id"), (r"arrsAcnPrms", "param"), (r"arrs\w*Proto|arrsErrcodes", "proto")]
class TD:
    def __init__(s, n): s.n = n
    def prop(s, k): return ["ENC_A", "ENC_B"] if k.startswith("arr") else "%s_%s" % (s.n, k)
    def __str__(s): return s.n

def base_value(p):
    if p in ("td", "prTd", "dt", "tv", "tz", "etd"): return TD(p)
    if p == "sAcc": return "->"
    if p in ("sSsuffix", "sSuffix", "sStar", "sBLI", "sBLJ") : return "" if p in ("sSsuffix", "sSuffix", "sStar") else p
    if p in FIXED: return FIXED[p]
    if p in STMTS: return INNER
    if ERRS.match(p): return "ERR_" + p[1:].upper()
    if p.startswith("arru"): return [0x41, 0x42]
    if p.startswith("arrn"): return [0x30, 0x31]
    if re.match(r"no?[A-Z]", p):
        return {"nMin": 3, "nUperMin": 3, "nMinSize": 3, "nSizeMin": 3, "nAsn1Min": 3, "noSizeMin": 3, "noMin": 3, "nFixedSize": 7, "nErrValue": 100}.get(p, 11 + sum(map(ord, p)) % 80)
    if re.match(r"b[A-Z]", p): return True
    if re.match(r"d[A-Z]", p): return 1.5
    return p

def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    t = re.sub(r"//[^\n]*", " ", t)
    return t

def preproc(t):
    """preprocessor lines are taken out; conditional parts stay"""
    return "\n".join(l for l in t.split("\n") if not l.lstrip().startswith("#"))

def parse_c(text, ctx, types):
    src = "".join("typedef int %s;\n" % x for x in sorted(types)) + ctx % text
    return c_parser.CParser().parse(src)

class Rendering:
    __slots__ = ("calls", "t", "group", "asg", "text", "ctx", "ast", "env")

def assignments(g, name):
    cs = g.conds(name)
    if len(cs) > 6: cs = cs[:6]
    for vals in itertools.product((True, False), repeat=len(cs)):
        yield dict(zip(cs, vals))

def render_all(g, name, want_text=False):
    """-> renderings, failures [(assignment, message)]"""
    t = g.T[name]; out, bad = [], []
    arrs = [p for p in t.params if p.startswith("arrs")]
    free = [p for p in t.params if p not in arrs and re.match(r"so?[A-Z]", p) and p not in STMTS and p not in FIXED and not ERRS.match(p) and p not in ("sAcc", "sSsuffix", "sSuffix", "sStar")]
    hint = None
    for asg in assignments(g, name):
        env = {}
        for p in t.params:
            v = base_value(p)
            if p in asg: v = v if asg[p] else (False if isinstance(v, bool) else [] if p.startswith("arr") else None)
            env[p] = v
        done = None
        combos = itertools.islice(itertools.product(list(CAND), repeat=min(len(arrs), 2)), 0, 200)
        combos = ([hint] if hint else []) + list(combos)
        tried = set()
        for cb, cb_over, chk in [(c, False, 0) for c in combos] + [(c, True, 0) for c in combos] + ([(c, False, 1) for c in combos] if env.get("soCheckExp") else []):
            e = dict(env)
            if chk: e["soCheckExp"] = "check_expr"
            for k, a in enumerate(arrs):
                if e[a] == []: continue
                if a in asg and not asg[a]: e[a] = []; continue
                pf = next((v for r, v in PREF if re.match(r, a)), None)
                c = CAND[pf] if pf and cb is not None and not cb_over else CAND[cb[min(k, len(cb) - 1)]] if cb else "IDENT"
                e[a] = [c] if a in SINGLE else [c, ("else " if c is CAND["ifc"] else "") + c.replace("_A", "_B").replace("_a", "_b")]
            try: txt = g.render(name, e)
            except (KeyError, TypeError, AttributeError) as x: bad.append((asg, "cannot be rendered: %s" % x)); done = False; break
            if txt in tried: continue
            tried.add(txt)
            body = preproc(strip_comments(txt))
            if not body.strip(): done = ("empty", None, txt, e, cb); break
            types = set(TYPES) | {q for q in t.params if re.search(r"Type|td", q) and isinstance(e[q], str)} | set(re.findall(r"\b(?:td|prTd)_(?:typeName|encoding_range|typedefName|\w*[tT]ype\w*)\b", body))
            for cn, ct in CONTEXTS:
                try: done = (cn, parse_c(body, ct, types), txt, e, cb); break
                except Exception: pass
            if done: break
        if done is False: continue
        if done is None:
            bad.append((asg, txt)); continue
        r = Rendering(); r.t, r.group, r.asg, r.text, r.ctx, r.ast, r.env = t, g, asg, done[2], done[0], done[1], done[3]
        hint = done[4]
        out.append(r)
    return out, bad

def placeholders():
    """names that the renderings contain because of the values and contexts chosen here"""
    t = " ".join([INNER] + list(FIXED.values()) + [c + " " + c.replace("_A", "_B").replace("_a", "_b") for c in CAND.values()] + [c for _, c in CONTEXTS] + ["ENC_A ENC_B check_expr"])
    return set(re.findall(r"[A-Za-z_]\w*", re.sub(r'"[^"]*"', " ", t)))
