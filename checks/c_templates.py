"""T01-T04, T06-T08: code templates of the compiler, decided on their text, every branch rendered with placeholders."""
import re, glob, os, collections, json
from common import *
import stg, ctempl, tpairs, cflow, cbound, tround, trscen
from ctempl import c_ast
LANGS = ("c", "a", "scala")

def rd(f): return open(f, errors="replace").read()
def loc(g, t): return "%s:%d" % (os.path.relpath(g.path, REPO), t.line)
def load(lang):
    try: return stg.groups(lang)
    except stg.StgError as e: raise AnalysisError("template group does not parse: %s" % e)

# ---------------------------------------------------------------------------------------------- T01
C_GROUPS = ("acn", "uper", "xer", "equal", "body")
DECSUF = ["", "Int8", "Int16", "Int32", "UInt8", "UInt16", "UInt32"]
class Decls(dict):
    def __init__(s): s.names = set()
def c_decls():
    """name -> (min, max) number of parameters, from the C front end"""
    r, out = run(["bash", "-c", "printf '%%s\\n' %s | clang-18 -x c -w -std=c11 -I %s -fsyntax-only -Xclang -ast-dump=json -" % (
        " ".join("'#include \"%s\"'" % os.path.basename(h) for h in sorted(glob.glob(RT + "/asn1crt*.h"))), RT)])
    i = out.find("{")
    try: d = json.loads(out[i:])
    except ValueError: raise AnalysisError("the runtime headers do not parse: " + out[:800])
    D = Decls()
    for x in d["inner"]:
        D.names |= {y["name"] for y in [x] + x.get("inner", []) if y.get("name") and y.get("kind") != "ParmVarDecl"}
        if x.get("kind") == "FunctionDecl":
            ps = [p["type"]["qualType"] for p in x.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
            D[x["name"]] = (len(ps), 99 if x.get("variadic") else len(ps), ps)
    if len(D) < 150: raise AnalysisError("declarations of the C runtime not found")
    return D
OWN = re.compile(r"^(BitStream|ByteStream|Acn|Xer|ObjectIdentifier|RelativeOID|Asn1Real)_\w+$")
class Calls(c_ast.NodeVisitor if c_ast else object):
    """calls with their arguments; declared and used names"""
    def __init__(s): s.l = []; s.decl = {}; s.ids = set(); s.mem = set()
    def visit_FuncCall(s, n):
        if isinstance(n.name, c_ast.ID): s.l.append((n.name.name, n.args.exprs if n.args else []))
        else: s.visit(n.name)
        if n.args: s.visit(n.args)
    def visit_Decl(s, n):
        if n.name:
            ty, k = n.type, ""
            while isinstance(ty, (c_ast.ArrayDecl, c_ast.PtrDecl)): ty = ty.type; k = "*"
            nm = getattr(getattr(ty, "type", None), "names", None)
            s.decl[n.name] = (nm[-1] if nm else None, k)
        s.generic_visit(n)
    def visit_StructRef(s, n):
        s.mem.add((n.name.name if isinstance(n.name, c_ast.ID) else "", n.field.name))
        s.visit(n.name)
    def visit_ID(s, n): s.ids.add(n.name)
OBJ = {"BitStream", "ByteStream", "AcnBitStreamPos", "Asn1ObjectIdentifier", "XmlAttributeArray"}
KNOWN = {"pBitStrm": ("BitStream", "*"), "pByteStrm": ("ByteStream", "*"), "pErrCode": ("int", "*"), "ret": ("flag", "")}
def argkind(formal, e, v, params):
    """what is wrong with argument e for a parameter of this type, as far as the text tells; None if nothing"""
    ptr = formal.rstrip().endswith("*"); base = re.sub(r"\bconst\b|\*", "", formal).strip()
    while isinstance(e, c_ast.Cast) and not isinstance(e.to_type.type, c_ast.PtrDecl): e = e.expr
    addr = isinstance(e, c_ast.UnaryOp) and e.op == "&"
    if isinstance(e, c_ast.Constant):
        if e.type == "string": return None if ptr and base in ("char", "unsigned char", "byte") else "a string"
        return "a number" if ptr and e.value not in ("0",) else None
    if addr:
        if not ptr: return "an address"
        x = e.expr
        if isinstance(x, c_ast.ID):
            d = v.decl.get(x.name) or KNOWN.get(x.name)
            if x.name in params and x.name in ("p", "pp", "ptr"): return "the address of a pointer"
            if d and d[1] and x.name in KNOWN: return "the address of a pointer"
            if d and not d[1] and d[0] and (d[0] in OBJ) != (base in OBJ): return "the address of a %s" % d[0]
        return None
    if isinstance(e, c_ast.ID):
        d = v.decl.get(e.name) or KNOWN.get(e.name)
        if d and d[0]:
            if bool(d[1]) != ptr: return "a pointer" if d[1] else "a value"
            if (d[0] in OBJ or base in OBJ) and d[0] != base and e.name not in params: return "a %s" % d[0]
            if e.name == "pErrCode" and base != "int": return "the error code"
        elif e.name in params and ptr and base.startswith("asn1Scc") and "const" not in formal and e.name not in ("p", "pp", "ptr"): return "a value"
    return None

def t01(rep, tier):
    nt = nr = nc = ns = 0; wide = []
    for lang in LANGS:
        for gn, g in load(lang).items():
            for t, m in g.errors: rep.violation("%s|%s|%s|syntax" % (lang, gn, t.name), "template %s does not parse: %s" % (t.name, m), loc(g, t))
            o = []
            for t in g.T.values():
                nt += 1
                if not t.nogen and t.name in g.body: g.scope(t.name, set(t.params), o)
            for t, m in o: rep.violation("%s|%s|%s|scope|%s" % (lang, gn, t.name, re.sub(r"\W+", " ", m).strip()), "template %s %s" % (t.name, m), loc(g, t))
    # C: every rendering parses and its calls fit the headers
    if ctempl.c_parser is None: raise AnalysisError("pycparser is not available")
    D = c_decls()
    G = load("c")
    # names a rendering may use: what the compiler's sources mention, what the headers declare, what the renderer puts in
    words = set()                     # members of the type definitions handed to the templates are members of F# types
    known = set(KNOWN) | {"NULL", "TRUE", "FALSE", "NULLP"} | set(ctempl.TYPES)
    for f in glob.glob(REPO + "/BackendAst/**/*.fs", recursive=True) + glob.glob(REPO + "/CommonTypes/*.fs") + glob.glob(REPO + "/StgC/LangGeneric*.fs"):
        for q in re.findall(r'"((?:[^"\\\n]|\\.)*)"', rd(f)): known |= set(re.findall(r"[A-Za-z_]\w*", q))
        words |= set(re.findall(r"[A-Za-z_]\w*", rd(f)))
    for f in glob.glob(RT + "/asn1crt*.h"): known |= set(re.findall(r"#\s*define\s+([A-Za-z_]\w*)", rd(f)))
    known |= set(D) | D.names
    texts = ctempl.placeholders()
    # pieces that complete a name: declared like this somewhere, or a member of the type definitions the compiler passes
    parts = {"_is_initialized"} if "_is_initialized" in known else set()
    layout = set(re.findall(r"[A-Za-z_]\w*", "\n".join(b for t in G["header"].T.values() for b in [t.raw]))) if "header" in G else set()
    nid = 0
    lits = set(re.findall(r'"(Acn_(?:InitDet|PatchDet)_\w+)"', rd(REPO + "/StgC/LangGeneric_c.fs")))
    R, gdecl = [], collections.defaultdict(set)
    for gn in C_GROUPS:
        if gn not in G: raise AnalysisError("C template group %s is gone" % gn)
        g = G[gn]
        for t in g.T.values():
            if t.nogen or t.name not in g.body: continue
            out, bad = ctempl.render_all(g, t.name); nr += len(out); R.append((gn, g, t, out, bad))
            for r in out:
                if r.ast is None: continue
                v = r.calls = Calls(); v.visit(r.ast)
                if any(p.startswith("arrs") for p in t.params): gdecl[gn] |= set(v.decl)     # a template may use what the one around it declares
    if True:
        for gn, g, t, out, bad in R:
            for asg, txt in bad:
                rep.violation("c|%s|%s|parse" % (gn, t.name), "template %s renders to text that is not C in any position (branch %s): %s" % (t.name, asg, " ".join(txt.split())[:200]), loc(g, t))
            sufs = DECSUF if any(p == "sSsuffix" for p in t.params) else ["", "_fp32"] if "sSuffix" in t.params else [""]
            for r in out:
                if r.ast is None: continue
                v = r.calls
                for i in sorted(v.ids - set(v.decl)):
                    nid += 1
                    own = r.ctx == "unit" and gn in ("acn", "uper") and i in KNOWN      # a function declares its own parameters
                    if i in (known if not own else ()) or i in texts - set(KNOWN) or ctempl.ERRVAL.match(i) or i in t.params: continue
                    if i in gdecl[gn] and not own or re.match("(td|prTd|etd)_", i) and i.split("_", 1)[1] in words: continue
                    rest, hit = i, 0                                   # a name completed with parameters
                    for x in sorted(t.params, key=len, reverse=True):
                        if x in rest and (len(x) > 1 or rest.startswith(x)): rest = rest.replace(x, "") if len(x) > 1 else rest[1:]; hit = 1
                    if hit and (rest.strip("_") == "" or rest in parts or rest.strip("_") in known): continue
                    rep.violation("c|%s|%s|ident|%s" % (gn, t.name, i), "template %s uses %s, which neither it nor the compiler nor the runtime declares" % (t.name, i), loc(g, t))
                for o, m in sorted(v.mem):
                    if m not in D.names and m not in t.params and m not in texts and ((v.decl.get(o) or KNOWN.get(o) or ("",))[0] in OBJ or m not in layout and m not in known):
                        rep.violation("c|%s|%s|member|%s" % (gn, t.name, m), "template %s uses the member %s of %s, which the runtime does not declare" % (t.name, m, o), loc(g, t))
                for f, al in v.l:
                    if not OWN.match(f): continue
                    nc += 1; n = len(al)
                    if f not in D:
                        if any(p in f for p in t.params): continue       # name built from a parameter
                        rep.violation("c|%s|%s|callee|%s" % (gn, t.name, f), "template %s calls %s, which the runtime does not declare" % (t.name, f), loc(g, t))
                    elif not D[f][0] <= n <= D[f][1]:
                        rep.violation("c|%s|%s|arity|%s" % (gn, t.name, f), "template %s passes %d arguments to %s, which takes %d" % (t.name, n, f, D[f][0]), loc(g, t))
                    else:
                        for k, (ft, e) in enumerate(zip(D[f][2], al)):
                            w = argkind(ft, e, v, t.params)
                            if w: rep.violation("c|%s|%s|kind|%s|%d" % (gn, t.name, f, k), "template %s passes %s as argument %d of %s, which is a %s" % (t.name, w, k + 1, f, ft), loc(g, t))
            # the operation name completed by the suffix of the host type
            for m in re.finditer(r"\b(Acn_Dec\w+|BitStream_Dec\w+)<(sSsuffix|sSuffix)>\s*\(", t.raw):
                for s in (DECSUF if m.group(2) == "sSsuffix" else ["", "_fp32"]):
                    if s and s[0] == "I" and re.search(r"PositiveInteger|UINT|PosWhole|_UInt|BCD_ConstSize", m.group(1)): continue     # these classes are refused for types with negative values
                    if s and s[0] == "U" and re.search(r"TwosComplement|SInt", m.group(1)): continue
                    w = re.search(r"_(8|16|32|64)$", m.group(1)); h = re.search(r"\d+$", s)
                    if w and h and int(h.group(0)) > int(w.group(1)): wide.append(m.group(1) + s); continue      # checkIntHasEnoughSpace: the type's range fits the wire width
                    ns += 1
                    if m.group(1) + s not in D: rep.violation("c|%s|%s|suffix|%s" % (gn, t.name, m.group(1) + s), "template %s calls %s for a %s host type, which the runtime does not declare" % (t.name, m.group(1) + s, s or "64-bit"), loc(g, t))
    for x in sorted(lits):
        ns += 1
        if x not in D:
            rep.violation("c|LangGeneric_c|literal|%s" % x, "the C back end names %s, which the runtime does not declare" % x, "StgC/LangGeneric_c.fs")
    # Ada and Scala: every runtime name a template refers to exists
    ada = "\n".join(tpairs.strip("a", rd(f)) for f in glob.glob(REPO + "/ADA_RTL2/**/*.ad[sb]", recursive=True))
    adaids = set(x.lower() for x in re.findall(r"\w+", ada))
    scdef = set()
    for f in glob.glob(REPO + "/asn1scala/**/*.scala", recursive=True): scdef |= set(re.findall(r"(?:def|val|var|class|object|type)\s+(\w+)", tpairs.strip("c", rd(f))))
    if len(adaids) < 500 or len(scdef) < 200: raise AnalysisError("sources of the Ada or Scala runtime not found")
    nn = 0
    for lang in ("a", "scala"):
        for gn, g in load(lang).items():
            for t in list(g.T.values()):
                if t.nogen or t.name not in g.body: continue
                for asg, text in tpairs.renderings(g, t.name):
                    tx = tpairs.strip(lang, text); ids = []
                    if lang == "a":
                        for m in re.finditer(r"\badaasn1rtl((?:\.\w+)+)", tx, re.I): ids += [x for x in m.group(1).split(".")[1:]]
                    else: ids = [m.group(1) for m in re.finditer(r"\bcodec(?:\.base)?(?:\.bitStream)?\.(\w+)", tx)]
                    for x in ids:
                        nn += 1
                        if any(p in x for p in t.params): continue
                        if (x.lower() not in adaids) if lang == "a" else (x not in scdef | {"base", "bitStream"}):
                            rep.violation("%s|%s|%s|name|%s" % (lang, gn, t.name, x), "template %s refers to %s, which the %s runtime does not define" % (t.name, x, "Ada" if lang == "a" else "Scala"), loc(g, t))
    rep.cov.update(templates=nt, c_renderings=nr, c_calls_checked=nc, c_names_checked=nid, suffix_variants_checked=ns, ada_scala_names_checked=nn, c_runtime_functions=len(D),
                   rule="every template parses, uses only its own parameters and existing helpers; every C rendering is C and its runtime calls fit the declarations; every Ada/Scala runtime name exists")

# ---------------------------------------------------------------------------------------------- T02
FAM = [("ChoiceChild", "Choice"), ("choice_child", "choice"), ("Enumerated_item", "Enumerated"), ("Enumerated_no_switch", "Enumerated")]
# Spellings in which the Ada and Scala runtimes name the operation of the same wire class (normalised before comparing with C)
XNORM = [("a", "acn", r"ASCII_", r"@int_ascii_(.*)", r"@sint_ascii_\1"), ("a", "acn", r"Boolean|BooleanTrueFalse", r"@boolean_(false|true|true_false)_pattern", "@bits"), ("a", "acn", r"Null_pattern", r"@nulltype_pattern2?", "@bits"),
         ("a", "acn", r"Acn_String_Ascii_Null", r"@string_ascii_null_terminated", "@string_ascii_null_terminated_mult"), ("a", "acn", r"Acn_IA5String_CharIndex_External", r"@string_charindex_external_field_determinant", "@ia5string_charindex_external_field_determinant"),
         ("a", "uper", r"Boolean", r"@boolean", "@bit"), ("scala", "acn", r"Acn_String_Ascii_Null|Acn_IA5String_CharIndex", r"(@.*_(?:mult|determinant))vec", r"\1")]
def xnorm(l, gn, b, k):
    for x, y, r, f, t in XNORM:
        if (x, y) == (l, gn) and re.match(r, b) and re.fullmatch(f, k): return re.sub(f, t, k)
    return k
# Differences that are not errors: the pieces of fragmented lists (assembled by a parent template) and items whose bits Ada copies one by one
PAIR_OK = {("uper", "IntRootExt"): ((), ("@unconstraintwholenumber",)),          # extension values are refused on encoding
           ("uper", "FixedSize_Fragmentation_sqf_remaining"): (("@bit",), ()), ("uper", "Fragmentation_sqf"): (("@bit",), ())}   # the decoder reads the 0 bit as part of the length
NUM_SKIP = re.compile(r"Fragmentation")            # numbers are compared by cross-checks of the generated loops elsewhere
X_SKIP = {("a", "uper", "InternalItem_bit_str")}
X_BITS = re.compile(r"Fragmentation")               # Ada moves bit string items with the item template

def step_table():
    ST = {}; locs = {}
    for l in LANGS:
        S = tpairs.symbols(l); G = load(l)
        for gn in ("acn", "uper", "xer"):
            if gn not in G: raise AnalysisError("template group %s of %s is gone" % (gn, l))
            g = G[gn]
            for t in list(g.T.values()):
                if t.nogen or t.name not in g.body or not re.search("_(en|de)code$", t.name): continue
                b, d = t.name[:-7], t.name[-6:]
                st = tpairs.steps(l, g, t.name, S)
                for x, y in FAM:
                    if b == x and y + "_encode" in g.T: b = y
                r = ST.setdefault((l, gn, b), {}).setdefault(d, {})
                locs.setdefault((l, gn, b), loc(g, t))
                for k, v in st.items(): r.setdefault(xnorm(l, gn, b, k), set()).update(v)
    return ST, locs

def mapped(g, name, d):
    """does the rendering with a mapping function apply it on the value of this direction, in every branch? and none without it"""
    t = g.T[name]; res = {True: set(), False: set()}
    for asg, text in tpairs.renderings(g, name):
        on = asg.get("soMF", "soMF" in t.params and True)
        if "soMF" in asg: res[asg["soMF"]].add(bool(re.search(r"\bsoMF_%s\s*\(" % d, tpairs.strip("c", text))))
    return res

def t02(rep, tier):
    ST, locs = step_table(); np = nn = nx = nm = 0
    for (l, gn, b), r in ST.items():
        e, d = r.get("encode"), r.get("decode")
        if e is None or d is None:
            rep.violation("%s|%s|%s|lone" % (l, gn, b), "template %s has only one direction" % b, locs[l, gn, b]); continue
        np += 1
        ok = PAIR_OK.get((gn, b), ((), ()))
        a, z = set(e) - set(d) - set(ok[0]), set(d) - set(e) - set(ok[1])
        if a or z: rep.violation("%s|%s|%s|pair" % (l, gn, b), "templates %s_encode and %s_decode use different operations: only encode %s, only decode %s" % (b, b, sorted(a), sorted(z)), locs[l, gn, b])
        for k in set(e) & set(d):
            if NUM_SKIP.search(b): continue
            nn += 1
            x, y = set(e[k]), set(d[k])
            if re.search("(?i)^choice", b) and l == "a": continue            # Ada passes the alternative's index, a placeholder here
            if not (x <= y or y <= x): rep.violation("%s|%s|%s|numbers|%s" % (l, gn, b, k), "templates %s_encode and %s_decode give different bounds to %s: %s / %s" % (b, b, k, sorted(x - y), sorted(y - x)), locs[l, gn, b])
    absent = {(l, gn) for l in LANGS for gn in ("acn", "uper", "xer") if not any(v for (x, y, _), r in ST.items() if (x, y) == (l, gn) for v in r.values())}      # Scala has no XER
    if absent - {("scala", "xer")}: raise AnalysisError("no operation found in the templates of %s" % sorted(absent))
    for (l, gn, b), r in ST.items():
        if l != "c": continue
        for o in ("a", "scala"):
            q = ST.get((o, gn, b))
            if not q or (o, gn, b) in X_SKIP or (o, gn) in absent: continue
            for d in ("encode", "decode"):
                x, y = set(r.get(d, {})), set(q.get(d, {}))
                if X_BITS.search(b) and o == "a": x.discard("@bits")
                nx += 1
                if x != y: rep.violation("%s|%s|%s|c|%s" % (o, gn, b, d), "template %s_%s uses another encoding than the C one: C %s, here %s" % (b, d, sorted(x), sorted(y)), locs[o, gn, b])
    for l in ("c", "a", "scala"):
        g = load(l)["acn"]
        for t in list(g.T.values()):
            if "soMF" not in t.params or not t.name.endswith("_encode") or t.nogen: continue
            b = t.name[:-7]; d = b + "_decode"
            if d not in g.T: continue
            nm += 1
            E, Dd = mapped(g, t.name, "encode"), mapped(g, d, "decode")
            if E != Dd: rep.violation("%s|acn|%s|mapping" % (l, b), "the value mapping is applied by %s only" % ("the encode template" if True in E[True] else "the decode template"), loc(g, g.T[d]))
    nrt = und = 0; unames = set()
    if not ctempl.c_parser: raise AnalysisError("no C parser")
    for gn in ("uper", "acn"):
        g = load("c")[gn]
        for names, scens in trscen.all_scenarios(g, gn):
            it = iter(()); seen = set()
            try:
                for s in scens():
                    try: r = tround.roundtrip(s.enc, s.dec, s.mem, s.dmem, s.scen, s.want)
                    except tround.Und as x: und += 1; unames.add("%s: %s" % (s.name, str(x)[:80])); continue
                    nrt += 1
                    if r and s.name not in seen:
                        seen.add(s.name); q = g.T.get(s.name.split(" ")[0] + "_decode") or g.T.get(s.name.split(" ")[0])
                        rep.violation("c|%s|%s|roundtrip" % (gn, s.name), "templates %s: the decode rendering does not undo the encode rendering: %s (scenario %s)" % (s.name, r, str(s.mem or s.dmem)[:120]), loc(g, q) if q else os.path.relpath(g.path, REPO))
            except (KeyError, TypeError, AttributeError, IndexError, ValueError, RecursionError) as x: unames.add("%s: %r" % ("/".join(names), x))
    rep.cov.update(round_trips=nrt, round_trips_not_followed=und, not_followed=sorted(unames)[:20], template_pairs=np, bounds_compared=nn, cross_language_comparisons=nx, mapping_pairs=nm,
                   rule="over a model of the wire the decode rendering of every C pair reads back what the encode rendering wrote, for every selection of text and every partition of counts; same wire class of runtime operations, same constants, and value mapping on both sides of a pair; same wire classes as the C template of that name")

# ---------------------------------------------------------------------------------------------- T03
PRED = re.compile(r"equal|Is|is_|Init|HasReached|NextStart|NextEnd")
def fallible():
    FL = set()
    for f in glob.glob(RT + "/asn1crt*.h"): FL |= set(re.findall(r"\bflag\s+(\w+)\s*\(", rd(f)))
    if len(FL) < 60: raise AnalysisError("declarations of the C runtime not found")
    def kind(f):
        if f is None: return None
        if f == "BitStream_checkBitPatternPresent": return "present"
        if f == "INNER_STEP" or re.match(r"s\w*(Func|Fnc)\w*Name$", f) or re.match(r"s\w*(_ACN|_aux|Name|_uper|_XER)\w*_?[Dd]ecode\w*$|sFuncName_aux$|sFuncName\w*$", f): return "inner"
        if (f in FL or any(f.startswith(x) for x in ("Acn_Dec", "BitStream_Dec"))) and not PRED.search(f): return "flag"
    return kind

def flow_of(r, kind):
    F = [x for x in r.ast.ext if isinstance(x, c_ast.FuncDef)]
    if not F: return None
    fl = cflow.Flow(kind, None)
    return list(fl.run(F[0].body, cflow.St({"ret": 1, "*pErrCode": 0, "pBitStrm->count": "SAVED"})))

def vars_in(e):
    out = set()
    class V(c_ast.NodeVisitor):
        def visit_ID(s, n): out.add(n.name)
    if e is not None: V().visit(e)
    return out

def t03(rep, tier):
    kind = fallible(); g_all = load("c"); nt = nr = npth = 0; skipped = []
    for gn in ("uper", "acn", "xer"):
        g = g_all[gn]
        for t in g.T.values():
            if t.nogen or t.name not in g.body or not t.name.endswith("_decode") or re.match(r"EmitTypeAssignment.*_def", t.name): continue
            nt += 1
            for r in ctempl.render_all(g, t.name)[0]:
                if r.ctx not in ("stmts", "cases", "stmt", "elseif", "ifbody"): continue
                try: ends = flow_of(r, kind)
                except OverflowError: skipped.append(t.name); continue
                if ends is None: continue
                nr += 1; npth += len(ends)
                for u, how in ends:
                    rv = how[1] if isinstance(how, tuple) else u.v.get("ret")
                    if u.failed and rv != 0: rep.violation("%s|%s|lost|%s" % (gn, t.name, u.failed[0]), "template %s (branch %s): the failure of %s does not make the result false" % (t.name, r.asg, u.failed[0]), loc(g, t))
                    if rv != 1 and u.v.get("*pErrCode") == 0: rep.violation("%s|%s|nocode" % (gn, t.name), "template %s (branch %s): a path ends with a false result and error code 0" % (t.name, r.asg), loc(g, t))
                    if rv == 1 and u.v.get("*pErrCode") not in (0, cflow.U, None): rep.violation("%s|%s|codeonly" % (gn, t.name), "template %s (branch %s): a path stores the error code %s and still succeeds" % (t.name, r.asg, u.v.get("*pErrCode")), loc(g, t))
                    for a, b in u.log: rep.violation("%s|%s|after|%s" % (gn, t.name, b), "template %s (branch %s): %s runs although an earlier step has failed" % (t.name, r.asg, b), loc(g, t))
    if not nr: raise AnalysisError("no decode template could be analysed")
    if skipped: rep.notes.append("too many paths: %s" % sorted(set(skipped)))
    rep.cov.update(decode_templates=nt, renderings=nr, paths=npth, rule="failed step => result false; result false => error code set; error code set => result false; no step after a failed one")

# ---------------------------------------------------------------------------------------------- T12
ROOM = re.compile(r"BitStream_Append|ByteStream_|BitStream_Init|BitStream_AttachBuffer")      # fail only without room, which the announced buffer size rules out
def t12(rep, tier):
    base = fallible(); g_all = load("c"); nt = nr = npth = 0; skipped = []
    def kind(f):
        if f is None or ROOM.match(f): return None
        if re.match(r"s\w*(_ACN|_aux|Name|_XER)\w*_?[Ee]ncode\w*$|sName\w*_Encode$|sFuncName_aux$|sPatchFuncName$", f): return "inner"
        if f in ("sInitFuncName",): return None
        return base(f)
    for gn in ("uper", "acn", "xer"):
        g = g_all[gn]
        for t in g.T.values():
            if t.nogen or t.name not in g.body or not (t.name.endswith("_encode") or re.match(r"acn_deferred_det_switch_(int|str)$", t.name)) or re.match(r"EmitTypeAssignment.*_def", t.name): continue
            if "_fallback_" in t.name: continue                      # writes a default nobody asked for over the placeholder
            nt += 1
            for r in ctempl.render_all(g, t.name)[0]:
                if r.ctx not in ("stmts", "cases", "stmt", "elseif", "ifbody"): continue
                try: ends = flow_of(r, kind)
                except OverflowError: skipped.append(t.name); continue
                if ends is None: continue
                nr += 1; npth += len(ends)
                for u, how in ends:
                    rv = how[1] if isinstance(how, tuple) else u.v.get("ret")
                    if u.failed and rv != 0: rep.violation("%s|%s|lost|%s" % (gn, t.name, u.failed[0]), "template %s (branch %s): the failure of %s does not make the result false" % (t.name, r.asg, u.failed[0]), loc(g, t))
                    if not u.failed and rv == 0 and u.v.get("*pErrCode") == 0 and "switch" not in t.name: rep.violation("%s|%s|nocode" % (gn, t.name), "template %s (branch %s): the encoder gives up without setting an error code" % (t.name, r.asg), loc(g, t))
                    if rv == 0 and not isinstance(how, tuple) and re.search(r"deferred_det_(patch|switch)", t.name): rep.violation("%s|%s|goes-on" % (gn, t.name), "template %s (branch %s): the encoder goes on although %s" % (t.name, r.asg, "%s failed" % u.failed[0] if u.failed else "no value is known"), loc(g, t))
                    for a, b in u.log: rep.violation("%s|%s|after|%s" % (gn, t.name, b), "template %s (branch %s): %s runs although an earlier step has failed" % (t.name, r.asg, b), loc(g, t))
    if nr < 50: raise AnalysisError("the encode templates could not be analysed")
    if skipped: rep.notes.append("too many paths: %s" % sorted(set(skipped)))
    rep.cov.update(encode_templates=nt, renderings=nr, paths=npth, rule="failed step => result false; no step after a failed one; a template that gives up by itself sets an error code")

# ---------------------------------------------------------------------------------------------- T04
GRP = {"typeDef": {"c": "header", "a": "spec", "scala": "header"}, "vars": "variables", "atc": "test_cases", "src": "body"}
def typ(p):
    m = re.match(r"(arr)?(s|n|b|d|u|o|so|no|bo|do)(?=[A-Z])", p)
    return m.group(0) if m else "s" if p in ("p", "i", "pp") else p
def t04(rep, tier):
    G = {l: load(l) for l in LANGS}; n = 0
    if any(len(G[l]) < 8 for l in LANGS): raise AnalysisError("template groups are missing")
    pairs = [(x, {l: x for l in LANGS}) for x in sorted(set().union(*[set(g) for g in G.values()]) - {"header", "spec", "aux", "aux_a"})] + [("typeDef", GRP["typeDef"])]
    for x, m in pairs:
        have = [l for l in LANGS if m[l] in G[l]]
        if len(have) < 2: continue
        names = set().union(*[{t for t, v in G[l][m[l]].T.items() if not v.nogen} for l in have])
        for t in sorted(names):
            ps = {}
            for l in have:
                v = G[l][m[l]].T.get(t)
                if v is None or v.nogen:
                    o = next(q for q in have if t in G[q][m[q]].T)
                    rep.violation("%s|%s|%s|missing" % (l, x, t), "template %s (%s) exists for %s and not for %s" % (t, x, o, l), loc(G[o][m[o]], G[o][m[o]].T[t])); continue
                ps[l] = v.params; n += 1
            ref = ps.get("c") or next(iter(ps.values()), None)
            for l, p in ps.items():
                if len(p) != len(ref) or [typ(q) for q in p] != [typ(q) for q in ref] or (sorted(p) == sorted(ref) and p != ref):
                    rep.violation("%s|%s|%s|parameters" % (l, x, t), "template %s (%s) takes other parameters than its C counterpart: %s / %s" % (t, x, p, ref), loc(G[l][m[l]], G[l][m[l]].T[t]))
    nu = 0
    for f in sorted(glob.glob(REPO + "/*/**/*.fs", recursive=True)):
        if f.endswith(".stg.fs"): continue
        for mm in re.finditer(r"\blm\.(\w+)\.(\w+)", rd(f)):
            a, b = mm.groups()
            if a == "lg": continue
            gg = GRP.get(a, a)
            for l in LANGS:
                q = gg[l] if isinstance(gg, dict) else gg
                if q not in G[l]: continue
                T = G[l][q].T; nu += 1
                if b not in T and not (b + "_encode" in T and b + "_decode" in T):
                    rep.violation("%s|use|%s|%s" % (l, a, b), "%s asks for template %s.%s, which does not exist for %s" % (os.path.relpath(f, REPO), a, b, l), os.path.relpath(f, REPO))
    if nu < 300: raise AnalysisError("uses of templates not found in the F# sources")
    rep.cov.update(templates_compared=n, uses_checked=nu, rule="same template names, same parameter lists (number, kind, order) in the three targets; every lm.<group>.<template> exists in each")

# ---------------------------------------------------------------------------------------------- T06
class Lin:
    """linear form over names, with at most a top-level division by a constant"""
    def __init__(s, c=None, k=0, div=1): s.c, s.k, s.div = dict(c or {}), k, div
    def add(s, o, f=1):
        if s.div != 1 or o.div != 1: return None
        r = Lin(s.c, s.k + f * o.k)
        for v, x in o.c.items(): r.c[v] = r.c.get(v, 0) + f * x
        return r
def lin(e, defs, depth=0):
    if isinstance(e, c_ast.Cast): return lin(e.expr, defs, depth)
    if isinstance(e, c_ast.Constant):
        try: return Lin(k=int(e.value.rstrip("uUlL"), 0))
        except ValueError: return None
    if isinstance(e, c_ast.UnaryOp) and e.op == "-":
        a = lin(e.expr, defs, depth); return a and Lin().add(a, -1)
    if isinstance(e, (c_ast.ID, c_ast.StructRef)):
        n = cflow.Flow(None, None).name(e)
        if n in defs and depth < 10: return lin(defs[n], defs, depth + 1)
        return Lin({n: 1}) if n else None
    if isinstance(e, c_ast.BinaryOp):
        a, b = lin(e.left, defs, depth), lin(e.right, defs, depth)
        if a is None or b is None: return None
        if e.op in "+-": return a.add(b, 1 if e.op == "+" else -1)
        if e.op == "*":
            for x, y in ((a, b), (b, a)):
                if not y.c and y.div == 1 and x.div == 1: return Lin({v: q * y.k for v, q in x.c.items()}, x.k * y.k)
        if e.op == "/" and not b.c and b.k > 0 and a.div == 1: return Lin(a.c, a.k, b.k)
        if e.op == "<<" and not b.c and a.div == 1: return Lin({v: q << b.k for v, q in a.c.items()}, a.k << b.k)
        if e.op == ">>" and not b.c and a.div == 1: return Lin(a.c, a.k, 1 << b.k)
    return None
def le(a, b):
    """a <= b as a linear form that must be >= 0 (integers, floor division of non-negative numbers), or None"""
    if a is None or b is None: return None
    if b.div != 1:
        if a.div != 1: return None
        b, a = Lin(b.c, b.k), Lin({v: x * b.div for v, x in a.c.items()}, a.k * b.div)
    if a.div != 1:              # floor(a/d) <= b  <=>  a <= d*b + d-1
        b, a = Lin({v: x * a.div for v, x in b.c.items()}, b.k * a.div + a.div - 1), Lin(a.c, a.k)
    r = b.add(a, -1); return r
def implies(g, t):
    """g >= 0 implies t >= 0, both linear: t - q*g is a constant that is not negative"""
    gv, tv = {v: x for v, x in g.c.items() if x}, {v: x for v, x in t.c.items() if x}
    if not gv or set(gv) != set(tv): return False
    q = {tv[v] / gv[v] for v in gv}
    if len(q) != 1: return False
    q = q.pop()
    return q > 0 and t.k - q * g.k >= 0

def windows(r):
    """[(store node, enclosing guards, defs)] of stores to pBitStrm->count that are not restores"""
    out = []
    F = [x for x in r.ast.ext if isinstance(x, c_ast.FuncDef)]
    nm = cflow.Flow(None, None).name
    def conj(e):
        if isinstance(e, c_ast.BinaryOp) and e.op == "&&": return conj(e.left) + conj(e.right)
        return [e]
    def go(st, guards, defs, retcond):
        if st is None: return
        if isinstance(st, c_ast.Compound):
            defs, retcond = defs, retcond
            rc = list(retcond)
            for x in st.block_items or []:
                if isinstance(x, c_ast.Decl) and x.init is not None: defs[x.name] = x.init
                elif isinstance(x, c_ast.DeclList):
                    for d in x.decls:
                        if d.init is not None: defs[d.name] = d.init
                elif isinstance(x, c_ast.Assignment):
                    n = nm(x.lvalue)
                    if n == "ret": rc = (rc if x.op == "&=" else []) + conj(x.rvalue)
                    elif n and n.endswith("->count"):
                        out.append((x, list(guards), dict(defs)))
                    elif n and x.op == "=" and n not in vars_in(x.rvalue) and "->" not in n: defs[n] = x.rvalue
                elif isinstance(x, c_ast.If):
                    cs = []
                    for c in conj(x.cond): cs += rc if nm(c) == "ret" else [c]
                    go(x.iftrue, guards + cs, defs, rc); go(x.iffalse, guards, defs, rc)
                    if any(isinstance(a, c_ast.Assignment) and nm(a.lvalue) == "ret" for a in walk(x)): rc = []
                else: go(x, guards, defs, rc)
        elif isinstance(st, c_ast.If):
            go(c_ast.Compound([st]), guards, defs, retcond)
        elif isinstance(st, (c_ast.While, c_ast.For, c_ast.DoWhile)): go(st.stmt if isinstance(st.stmt, c_ast.Compound) else c_ast.Compound([st.stmt]), guards, defs, [])
        elif isinstance(st, c_ast.Assignment): go(c_ast.Compound([st]), guards, defs, retcond)
    for f in F: go(f.body, [], {}, [])
    return out
def walk(n):
    yield n
    for _, c in n.children(): yield from walk(c)

def t06(rep, tier):
    kind = fallible(); G = load("c"); nw = ng = nt = npth = 0; und = []
    nm = cflow.Flow(None, None).name
    for gn in ("acn", "uper"):
        g = G[gn]
        for t in g.T.values():
            if t.nogen or t.name not in g.body or not t.name.endswith("_decode"): continue
            for r in ctempl.render_all(g, t.name)[0]:
                if r.ctx not in ("stmts", "cases", "stmt"): continue
                W = windows(r)
                if not W: continue
                nt += 1
                for st, guards, defs in W:
                    rhs = nm(st.rvalue)
                    if rhs and rhs in defs and nm(defs[rhs]) and nm(defs[rhs]).endswith("->count"): continue          # gives back the saved end
                    if nm(st.rvalue) and nm(st.rvalue).endswith("->count"): continue
                    nw += 1
                    ref = nm(st.lvalue); d2 = {k: v for k, v in defs.items()}
                    tgt = le(lin(st.rvalue, d2), Lin({ref: 1}))
                    got = None
                    for c in guards:
                        if not isinstance(c, c_ast.BinaryOp) or c.op not in ("<", "<=", ">", ">="): continue
                        a, b = (c.left, c.right) if c.op[0] == "<" else (c.right, c.left)
                        f = le(lin(a, d2), lin(b, d2))
                        if f is not None and len(c.op) == 1: f = Lin(f.c, f.k - 1)
                        if f is None or tgt is None: continue
                        if ref not in f.c: continue
                        got = got or "weak"
                        if implies(f, tgt): got = "ok"
                    ng += 1
                    if tgt is None: und.append(t.name); continue
                    if got != "ok":
                        rep.violation("%s|%s|window" % (gn, t.name), "template %s (branch %s): the end of the input is moved to a place computed from the input%s" % (t.name, r.asg, " under a condition that does not keep it inside the old end" if got else " without a comparison with the old end"), loc(g, t))
                for u, how in flow_of(r, kind):
                    npth += 1
                    if u.v.get("pBitStrm->count", "SAVED") != "SAVED": rep.violation("%s|%s|restore" % (gn, t.name), "template %s (branch %s): a path leaves the end of the input moved" % (t.name, r.asg), loc(g, t))
    if not nw: raise AnalysisError("no template narrows the input any more")
    if und: rep.notes.append("window expression not linear: %s" % sorted(set(und)))
    rep.cov.update(templates=nt, window_stores=nw, paths=npth, rule="each store to the end of the input is implied to be at most the old end by a comparison on every path to it (linear arithmetic), and every path restores the old end")

# ---------------------------------------------------------------------------------------------- T08
EXT = re.compile(r"(.*->)?sExtF\w*$|sDetParamName->value$")
def t08(rep, tier):
    G = load("c"); n = collections.Counter(); und = set(); cond = set()
    for gn in ("acn", "uper"):
        g = G[gn]
        for t in g.T.values():
            if t.nogen or t.name not in g.body or not t.name.endswith("_decode"): continue
            used = 0
            for r in ctempl.render_all(g, t.name)[0]:
                if r.ctx not in ("stmts", "cases", "stmt"): continue
                F = [x for x in r.ast.ext if isinstance(x, c_ast.FuncDef)]
                if not F: continue
                caps = [cbound.L(k=v) for p, v in r.env.items() if re.match(r"no?(SizeMax|MaxSize|FixedSize|Asn1Max|MaxLen|Size)$", p) and isinstance(v, int) and not isinstance(v, bool)]
                caps += [cbound.L({p: 1}) for p in t.params if re.match(r"s(o)?Req(Bytes|Bits)", p)]
                n["renderings"] += 1
                def use(kind, node, ok, why):
                    n["uses"] += 1
                    if ok is None: und.add("%s: %s" % (t.name, kind)); return
                    if ok: return
                    if r.asg.get("noSizeMax") is False: cond.add(t.name); return     # the generator leaves the comparison out: see below
                    rep.violation("%s|%s|%s" % (gn, t.name, kind), "template %s (branch %s): %s taken from the message: %s" % (t.name, r.asg, kind, why), loc(g, t))
                cbound.Bounds(lambda x: bool(EXT.match(x)), caps, use).run(F[0].body)
    if not n["uses"]: raise AnalysisError("no decode template uses a length from the message any more")
    # a template may be told to leave the comparison out (no noSizeMax): only where the decoder of the determinant enforces the range itself, i.e. uPER integers
    f = "BackendAst/Acn/AcnOctetBitStrings.fs"
    if cond and os.path.exists(os.path.join(REPO, f)):
        lines = fs(f).split("\n")
        def block(k):
            """text of the definition that starts on line k"""
            ind = len(lines[k]) - len(lines[k].lstrip()); out = [lines[k].split("=", 1)[1] if "=" in lines[k] else ""]
            for l in lines[k + 1:]:
                if l.strip() and len(l) - len(l.lstrip()) <= ind: break
                out.append(l)
            return "\n".join(out)
        for k, l in enumerate(lines):
            if not re.match(r"\s*let noSizeMax\b.*=", l): continue
            body = block(k)
            if not re.search(r"\bNone\b", body): continue
            sel = re.search(r"match\s+(\w+)\s+with", body)
            src = None
            for j in range(k - 1, max(0, k - 60), -1) if sel else ():
                if re.match(r"\s*let %s\b.*=" % sel.group(1), lines[j]): src = block(j); break
            if src is None: rep.notes.append("noSizeMax: origin of the bound not recognised"); continue
            n["generator"] += 1
            for pat, g_, rhs in arms(src):
                if re.search(r"\bSome\b", rhs) and "match" not in rhs and "Integer_uPER" not in pat + g_:
                    rep.violation("noSizeMax|%s" % pat.replace(" ", ""), "the size check of an external length is left out whenever the range of the determinant fits (%s), also for encodings whose decoder does not enforce that range" % pat, f)
    if und: rep.notes.append("not linear: %s" % sorted(und))
    rep.cov.update(renderings=n["renderings"], length_uses=n["uses"], generator_decisions=n["generator"], rule="each length taken from the message is implied (linear facts from comparisons, decode ranges and loop limits) to be at most the capacity where it is used, and not negative where it comes from another field")

# ---------------------------------------------------------------------------------------------- T07
CLS = re.compile(r"(?:Asn1AcnAst\.)?(PositiveInteger|TwosComplement|ASCII_UINT|ASCII|BCD)_(ConstSize|VarSize_NullTerminated)(?:_(8|(?:big|little)_endian_(?:16|32|64)))?$")
def cls(n):
    """class name -> (sign/kind, size kind, width, byte order)"""
    m = CLS.match(n.strip())
    if not m: return None
    w = m.group(3)
    if w is None: return (m.group(1), m.group(2), None, None)
    p = w.split("_")
    return (m.group(1), m.group(2), int(p[-1]), p[0] if len(p) > 1 else None)

def fs(f):
    p = os.path.join(REPO, f)
    if not os.path.exists(p): raise AnalysisError(f + " is gone")
    t = rd(p)
    t = re.sub(r"\(\*.*?\*\)", " ", t, flags=re.S)
    return re.sub(r"(?<!:)//[^\n]*", "", t)
def alternatives(p):
    """the alternatives of an or-pattern"""
    out, d, cur = [], 0, ""
    for c in p:
        d += (c in "([") - (c in ")]")
        if c == "|" and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    out.append(cur.strip())
    return [x for x in out if x] or [""]
def arms(t, nested=False):
    """match arms of a text: [(pattern, guard, right side)], one per alternative of an or-pattern; nested: arms of inner matches belong to the right side"""
    out = []; lines = t.split("\n"); cur = []; col = 0; held = []
    for l in lines:
        ind = len(l) - len(l.lstrip())
        m = re.match(r"\s*\|\s*(.*?)\s*->\s*(.*)$", l)
        inner = nested and cur and ind > col and re.match(r"PosInt|Twos|IntAscii|BCD|_ *,", cur[0][0])
        if m and not re.match(r"\s*\|>", l) and not inner:
            col = ind
            pg = re.split(r"\bwhen\b", m.group(1), maxsplit=1)
            cur = [[a, pg[1].strip() if len(pg) > 1 else "", m.group(2).strip()] for h in held + [pg[0].strip()] for a in alternatives(h)]
            held = []; out += cur
        elif re.match(r"\s*\|(?![>|])", l) and "->" not in l and not inner: held.append(l.strip()[1:].strip())
        elif cur and l.strip():
            for c in cur: c[2] += "\n" + l.strip()
    return out
def body_of(t, head, f):
    """text of a top-level definition"""
    m = re.search(head, t)
    if not m: raise AnalysisError("%s: %s not found" % (f, head))
    e = re.compile(r"\n(?=[^\s])").search(t, m.end())
    return t[m.end():e.start() if e else len(t)]
def big(x):
    x = x.strip().strip("()")
    return int(x[:-1]) if re.fullmatch(r"\d+I", x) else None

def t07(rep, tier):
    n = collections.Counter()
    def bad(key, what, f): rep.violation(key, what, f)
    # (a) properties -> class and announced size
    f = "FrontEndAst/AcnEncodingClasses.fs"; t = body_of(fs(f), r"\nlet GetIntEncodingClass\b", f)
    KIND = {"PosInt": ("PositiveInteger",), "TwosComplement": ("TwosComplement",), "IntAscii": ("ASCII", "ASCII_UINT"), "BCD": ("BCD",)}
    for pat, g, rhs in arms(t, True):
        p = [x.strip() for x in pat.split(",")]
        if len(p) != 3 or p[0] not in KIND: continue
        fixed = re.match(r"Fixed\s*\(\s*(\w+)\s*\)", p[1])
        order = {"BigEndianness": "big", "LittleEndianness": "little"}.get(p[2])
        w = re.fullmatch(r"(\w+)\s*=\s*(\d+)I", g)
        for m in re.finditer(r"((?:PositiveInteger|TwosComplement|ASCII|BCD)\w*)((?:\s+\w+)?)\s*,\s*([^,\n]+),\s*([^\n]+)", rhs):
            c = cls(m.group(1))
            if c is None: continue
            n["selection"] += 1
            key = "select|%s|%s" % (pat.replace(" ", ""), g.replace(" ", ""))
            if c[0] not in KIND[p[0]]: bad(key + "|kind", "ACN encoding %s selects the class %s" % (p[0], m.group(1)), f)
            if fixed and c[1] != "ConstSize" or p[1].startswith("IntNullTerminated") and c[1] != "VarSize_NullTerminated": bad(key + "|size", "size property %s selects the class %s" % (p[1], m.group(1)), f)
            lo, hi = m.group(3).strip(), m.group(4).strip()
            if fixed and w and c[2] is not None:
                W = int(w.group(2))
                if c[2] != W: bad(key + "|width", "size %d selects the class %s" % (W, m.group(1)), f)
                if c[3] and order and c[3] != order: bad(key + "|order", "%s selects the class %s" % (p[2], m.group(1)), f)
                if big(lo) not in (None, W) or big(hi) not in (None, W): bad(key + "|bits", "class %s announces %s to %s bits" % (m.group(1), lo, hi), f)
            elif fixed and not w and c[2] is None:
                v = fixed.group(1)
                if m.group(2).strip() != v or lo != v or hi != v: bad(key + "|bits", "class %s of size %s announces %s to %s bits" % (m.group(1) + m.group(2), v, lo, hi), f)
            elif fixed and w and c[2] is None and (big(lo) not in (None, int(w.group(2)))): bad(key + "|bits", "class %s announces %s bits for size %s" % (m.group(1), lo, w.group(2)), f)
    # (b) range checked per class
    f = "FrontEndAst/AcnCreateFromAntlr.fs"; t = body_of(fs(f), r"\nlet checkIntHasEnoughSpace\b", f)
    for pat, g, rhs in arms(t):
        h = pat.split(); c = cls(h[0]) if h else None
        if c is None: continue
        rhs = rhs.split("\n")[0]
        m = re.match(r"checkBinary\s+(true|false)\s+(\w+)", rhs)
        if m:
            n["range"] += 1
            if c[0] not in ("PositiveInteger", "TwosComplement") or (m.group(1) == "true") != (c[0] == "PositiveInteger"): bad("range|%s|sign" % h[0], "the range of class %s is checked as %s" % (h[0], "unsigned" if m.group(1) == "true" else "signed"), f)
            if c[2] is not None and big(m.group(2)) not in (None, c[2]) or c[2] is None and len(h) > 1 and m.group(2) != h[1]: bad("range|%s|width" % h[0], "the range of class %s is checked with %s bits" % (pat, m.group(2)), f)
        elif rhs.startswith(("checkAscii", "checkBCD")):
            n["range"] += 1
            if rhs.startswith("checkAscii") != c[0].startswith("ASCII") or rhs.startswith("checkBCD") != (c[0] == "BCD"): bad("range|%s|kind" % h[0], "the range of class %s is checked by %s" % (h[0], rhs.split()[0]), f)
        elif rhs.startswith("()") and c[1] == "ConstSize": bad("range|%s|unchecked" % h[0], "the range of the fixed size class %s is not checked" % h[0], f)
    # (c) code template per class
    f = "BackendAst/Acn/AcnPrimitives.fs"; t = fs(f)
    alias = dict(re.findall(r"let\s+(\w+)\s*=\s*lm\.acn\.(\w+)", t))
    for k, v in alias.items():
        a, b = cls(k), cls(v)
        if a or b:
            n["alias"] += 1
            if a != b: bad("alias|%s" % k, "%s stands for the template %s" % (k, v), f)
    for pat, g, rhs in arms(t):
        h = pat.split(); c = cls(h[0]) if h and h[0].startswith("Asn1AcnAst.") else None
        if c is None: continue
        r = rhs.split("\n")[0].split()
        if not r: continue
        n["template"] += 1
        used = [x for x in r[1:] if cls(x)]
        if used and cls(used[0]) != c: bad("template|%s" % h[0], "class %s is coded with the template %s" % (h[0], used[0]), f)
        if r[0].startswith("unsigned") and c[0] != "PositiveInteger" or r[0].startswith("signed") and c[0] != "TwosComplement": bad("template|%s|sign" % h[0], "class %s is coded by %s" % (h[0], r[0]), f)
        if r[0].startswith("bcd") and c[0] != "BCD" or r[0].startswith("asciiVar") and not c[0].startswith("ASCII"): bad("template|%s|kind" % h[0], "class %s is coded by %s" % (h[0], r[0]), f)
        if c[2] is not None and r[-1].isdigit() and int(r[-1]) != c[2]: bad("template|%s|width" % h[0], "class %s is coded with width %s" % (h[0], r[-1]), f)
        if c[1] == "ConstSize" and c[2] is None and r[0] == "asciiOrBcdConst" and big(r[-1]) not in (None, 4 if c[0] == "BCD" else 8): bad("template|%s|digit" % h[0], "class %s has digits of %s bits" % (h[0], r[-1]), f)
    # (d) deferred determinants per class
    for f in ("StgC/LangGeneric_c.fs", "StgAda/LangGeneric_a.fs"):
        t = fs(f)
        for pat, g, rhs in arms(t):
            h = pat.split(); c = cls(h[0]) if h and h[0].startswith("Asn1AcnAst.") else None
            m = re.match(r"Some\s*\(\s*(?:q\s+)?\"Acn_InitDet_(\w+)\"\s*,\s*(?:q\s+)?\"Acn_PatchDet_(\w+)\"\s*,\s*(None|Some\s+\w+)", rhs.split("\n")[0])
            if c is None or not m: continue
            n["determinant"] += 1
            if m.group(1) != m.group(2): bad("det|%s|%s|pair" % (f, h[0]), "class %s is reserved as %s and patched as %s" % (h[0], m.group(1), m.group(2)), f)
            for x in (m.group(1), m.group(2)):
                q = re.fullmatch(r"([UI])(8|16|32|64)(?:_(BE|LE))?", x)
                if q:
                    want = ({"PositiveInteger": "U", "TwosComplement": "I"}.get(c[0]), c[2], {"big": "BE", "little": "LE", None: None}[c[3]])
                    if (q.group(1), int(q.group(2)), q.group(3)) != want: bad("det|%s|%s|form" % (f, h[0]), "a deferred determinant of class %s is written as %s" % (h[0], x), f)
                elif x in ("ConstSize", "TwosComplement_ConstSize"):
                    if c[2] is not None or (c[0] == "TwosComplement") != x.startswith("Twos") or m.group(3).split()[-1] != (h[1] if len(h) > 1 else None): bad("det|%s|%s|form" % (f, h[0]), "a deferred determinant of class %s is written as %s %s" % (pat, x, m.group(3)), f)
    # (e) host types
    f = "BackendAst/DAstUPer.fs"; t = body_of(fs(f), r"\nlet getIntDecFuncSuffix\b", f)
    for pat, g, rhs in arms(t):
        m = re.match(r"(?:Asn1AcnAst\.)?ASN1SCC_(U?Int)(8|16|32|64)?\b", pat); q = re.match(r'"(\w*)"', rhs)
        if not m or not q: continue
        n["suffix"] += 1
        want = m.group(1) + m.group(2) if m.group(2) in ("8", "16", "32") else ""
        if q.group(1) != want: bad("suffix|%s" % pat.split()[0], "host type %s uses the decoder suffix %r" % (pat.split()[0], q.group(1)), f)
    f = "FrontEndAst/Asn1AcnAstUtilFunctions.fs"; t = body_of(fs(f), r"\nlet getIntEncodingClassByUperRange\b", f)
    LIM = {"SByte": (True, 8), "Int16": (True, 16), "Int32": (True, 32), "Int64": (True, 64), "Byte": (False, 8), "UInt16": (False, 16), "UInt32": (False, 32), "UInt64": (False, 64)}
    var = {}
    for m in re.finditer(r"let\s+(u?int\d+)\s*=\s*ASN1SCC_(U?Int)(\d+)\s*\(([^\n]*)\)", t):
        n["host"] += 1; s, w = m.group(2) == "Int", int(m.group(3)); var[m.group(1)] = (s, w)
        for q, e in re.findall(r"System\.(\w+)\.(MinValue|MaxValue)", m.group(4)):
            if LIM.get(q) != (s, w): bad("host|%s" % m.group(1), "ASN1SCC_%s%d is given the range of %s" % (m.group(2), w, q), f)
    for m in re.finditer(r"x\s*>\s*BigInteger\s+System\.(\w+)\.MaxValue\s+then\s+(\w+)", t):
        n["host"] += 1; a, b = LIM.get(m.group(1)), var.get(m.group(2))
        if a and b and (b[0] or b[1] != 2 * a[1]): bad("hostsel|%s" % m.group(1), "a range above %s is given the host type %s" % (m.group(1), m.group(2)), f)
    for m in re.finditer(r"System\.(\w+)\.MinValue\s*<=\s*a\s*&&\s*b\s*<=\s*BigInteger\s+System\.(\w+)\.MaxValue\s+then\s+(\w+)", t):
        n["host"] += 1
        if m.group(1) != m.group(2) or LIM.get(m.group(1)) != var.get(m.group(3)): bad("hostsel|%s" % m.group(1), "a range inside %s..%s is given the host type %s" % (m.group(1), m.group(2), m.group(3)), f)
    # (f) alignment
    f = "FrontEndAst/AcnEncodingClasses.fs"; t = fs(f); AL = {"NextByte": 8, "NextWord": 16, "NextDWord": 32}
    for pat, g, rhs in arms(body_of(t, r"\nlet getAlignmentSize\b", f)):
        m = re.match(r"Some\s*\(?\s*(Next\w+)", pat)
        if m and m.group(1) in AL and big(rhs.split("\n")[0]) is not None:
            n["alignment"] += 1
            if big(rhs.split("\n")[0]) != AL[m.group(1)] - 1: bad("align|%s" % m.group(1), "alignment %s announces %s padding bits" % (m.group(1), rhs.split()[0]), f)
    for m in re.finditer(r"let\s+alignedTo(Byte|Word|DWord)\b[^\n]*alignedToBits\s+(\d+)I", t):
        n["alignment"] += 1
        if int(m.group(2)) != AL["Next" + m.group(1)]: bad("align|to%s" % m.group(1), "alignment to a %s uses %s bits" % (m.group(1), m.group(2)), f)
    for k in ("selection", "range", "template", "determinant"):
        if not n[k]: raise AnalysisError("no entry of the %s table was recognised" % k)
    rep.cov.update({"entries_" + k: v for k, v in n.items()})
    rep.cov["rule"] = "in every table of the compiler indexed by the ACN integer class, the entry has the kind, width, byte order, size, range and determinant form the class name stands for"
