"""Coding steps of code templates: which operations of the runtime an encode or decode template calls, by wire class.

A template is rendered for every assignment of its conditional parameters; the calls of runtime operations found in the
text are reduced to the class of encoding they perform (direction, integer width of the host type and language dependent
spelling taken away) and to the numbers that bound it."""
import re, glob, os
import ctempl, stg
from common import REPO, AnalysisError

def strip(lang, t):
    return re.sub(r"--[^\n]*", "", t) if lang == "a" else ctempl.strip_comments(t)

def symbols(lang):
    """names of the operations the runtime of a language offers"""
    S = set()
    def rd(f): return open(f, errors="replace").read()
    if lang == "c":
        for f in glob.glob(REPO + "/asn1crt/*.h"): S |= set(re.findall(r"\b(\w+)[ \t]*\(", strip("c", rd(f))))
        S = {x for x in S if re.match("BitStream_|Acn_|Xer_|ObjectId|RelativeOID|ByteStream", x)}
        for f in glob.glob(REPO + "/asn1crt/*.h"): S |= {"Acn_%s_%s" % (a, n) for n in re.findall(r"^DEFINE_ACN_DET\w*\((\w+)", rd(f), re.M) for a in ("InitDet", "PatchDet")}
    elif lang == "a":
        for f in glob.glob(REPO + "/ADA_RTL2/**/*.ads", recursive=True): S |= {x.lower() for x in re.findall(r"(?:procedure|function)\s+(\w+)", strip("a", rd(f)), re.I)}
    else:
        for f in glob.glob(REPO + "/asn1scala/**/*.scala", recursive=True): S |= set(re.findall(r"def\s+(\w+)", strip("c", rd(f))))
    if len(S) < 100: raise AnalysisError("operations of the %s runtime not found" % lang)
    return S

SAME = [  # spellings of one class of encoding
    (r"^@(bitzero|bitone)$", "@bit"), (r"^@byte0$", "@byte"), (r"^@(bits|bitarray|bitsvec|bitsmsbfirst|bitsmsbfirstvec|bitpattern|bitpattern_ignore_value|truefalseboolean|bits_nullterminated)$", "@bits"),
    (r"^checkbitpatternpresent$|^bitpatternmatches$|^skipbits$", "@bits"),
    (r"^@constrain(t|ed)(pos)?wholenumber(int|byte|long|short)?$", "@constraintwholenumber"), (r"^@unconstrain(t|ed)wholenumber(max)?$", "@unconstraintwholenumber"),
    (r"^@semiconstrain(t|ed)(pos)?wholenumber(int|max)?$", "@semiconstraintwholenumber"), (r"^@octetstring_no_length_vec$", "@octetstring_no_length"), (r"^objectidentifier(_uper)?_@$|^@objectidentifier$", "@objectidentifier"),
    (r"^relativeoid(_uper)?_@$|^@relativeoid$", "@relativeoid")]
AUX = re.compile(r"distanceinb|getpos|setpos|^(bitstream_)?init|^nextendelementis|^nextstartelementis|^la_|^fromraw|^fromarrayraws|^invariant|getbitcountunsigned|^getstringsize|^getcharindex|^indexoforlength|^characterpos|^getzerobased|string_equal|current_length|^validate|^reset|^asn1|^lemma|^attach")

def canon(lang, n):
    n = n.lower()
    n = re.sub(r"^(bitstream|acn|uper|xer)_", "", n)
    n = re.sub(r"_?u?int(8|16|32)$", "", n)
    n = re.sub(r"encode|decode|append|read", "@", n, count=1)
    n = re.sub(r"^(enc|dec)_", "@", n)
    n = n.replace("@_", "@").replace("_uper_@", "_@")
    for r, k in SAME:
        if re.match(r, n): return k
    return None if AUX.search(n) or "@" not in n else n

NUM = re.compile(r"-?\d+|0[xX][0-9A-Fa-f]+|16#\w+#")
def args_at(t, i):
    d, cur, out = 1, "", []
    while i < len(t) and d:
        c = t[i]
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        if c == "," and d == 1: out.append(cur.strip()); cur = ""
        elif d: cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out

def number(x):
    x = re.sub(r"\(\s*\w+\s*\)\s*", "", x).strip().rstrip("uUlL")
    if re.fullmatch(r"16#\w+#", x): return int(x[3:-1], 16)
    try: return int(x, 0)
    except ValueError: return None

def calls(lang, text, S):
    t = strip(lang, text); out = []
    for m in re.finditer(r"([A-Za-z_][\w.]*)\s*\(", t):
        n = m.group(1).split(".")[-1]
        k = n.lower() if lang == "a" else n
        if k in S: out.append((n, args_at(t, m.end())))
    return out

def renderings(g, name):
    t = g.T[name]
    for asg in ctempl.assignments(g, name):
        env = {}
        for p in t.params:
            v = ctempl.base_value(p)
            if p in asg: v = v if asg[p] else (False if isinstance(v, bool) else [] if p.startswith("arr") else None)
            if p.startswith("arrs") and not isinstance(v, list): v = ["ITEM_%s" % p]
            env[p] = v
        yield asg, g.render(name, env)

def steps(lang, g, name, S):
    """-> {wire class: set of numbers used with it}"""
    out = {}
    for asg, text in renderings(g, name):
        for n, a in calls(lang, text, S):
            k = canon(lang, n)
            if k: out.setdefault(k, set()).update(x for x in map(number, a) if x is not None)
    return out
