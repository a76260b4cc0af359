"""String-template groups (.stg): parser, static scope check and renderer (StringTemplate 3 subset used by the compiler)."""
import os, re, itertools, glob
from common import REPO, AnalysisError

class Text:
    def __init__(s, t): s.t = t
class Attr:                      # name[.prop], separator, format, applied anonymous template
    def __init__(s, e, sep=None, fmt=None, anon=None): s.e, s.sep, s.fmt, s.anon = e, sep, fmt, anon
class If:
    def __init__(s, neg, name, a, b): s.neg, s.name, s.a, s.b = neg, name, a, b
class Call:
    def __init__(s, name, args): s.name, s.args = name, args      # args: [(formal or None, expr)]

class Template:
    def __init__(s, name, params, raw, nogen, file, line):
        s.name, s.params, s.raw, s.nogen, s.file, s.line = name, params, raw, nogen, file, line

class StgError(Exception): pass

HEAD = re.compile(r'^[ \t]*([A-Za-z_]\w*)[ \t]*\(([^)]*)\)[ \t]*((?:/\*.*?\*/)?)[ \t]*::=[ \t]*((?:/\*.*?\*/)?)\s*(<<|")', re.M | re.S)

def load(path):
    s = open(path, encoding="utf-8-sig", errors="replace").read().replace("\r", "")
    out, pos = {}, 0
    while True:
        m = HEAD.search(s, pos)
        if not m: break
        line = s.count("\n", 0, m.start(1)) + 1
        if m.group(5) == "<<":
            e = s.find(">>", m.end())
            # a body ends at the first '>>' that is not part of the text
            while e >= 0 and s[e - 1] == "\\": e = s.find(">>", e + 2)
            if e < 0: raise StgError("%s:%d: unterminated template %s" % (path, line, m.group(1)))
            while s[e:e + 3] == ">>>": e += 1
            raw, pos = s[m.end():e], e + 2
            if raw.startswith("\n"): raw = raw[1:]
            if raw.endswith("\n"): raw = raw[:-1]
        else:
            e = m.end()
            while s[e] != '"':
                e += 2 if s[e] == "\\" else 1
            raw, pos = s[m.end():e].replace('\\"', '"'), e + 1
        ps = [re.sub(r"/\*.*?\*/", "", p).strip() for p in m.group(2).split(",")]
        ps = [p for p in ps if p]
        n = m.group(1)
        if n in out: raise StgError("%s:%d: template %s is defined twice" % (path, line, n))
        out[n] = Template(n, ps, raw, "nogen" in m.group(3) + m.group(4), path, line)
    if not out: raise AnalysisError("no template found in " + path)
    return out

# ------------------------------------------------------------------ bodies
def tokens(raw):
    """-> list of ('t', text) / ('e', expression)"""
    out, buf, i, n = [], [], 0, len(raw)
    while i < n:
        c = raw[i]
        if c == "\\" and i + 1 < n and raw[i + 1] in "<>\\":
            if raw[i + 1] == "\\": buf.append("\\\\"); i += 2; continue
            buf.append(raw[i + 1]); i += 2; continue
        if c == "<":
            if raw.startswith("<!", i):
                j = raw.find("!>", i)
                if j < 0: raise StgError("unterminated template comment")
                i = j + 2; continue
            j, d, q = i + 1, 0, False
            while j < n:
                ch = raw[j]
                if q:
                    if ch == "\\": j += 1
                    elif ch == '"' and d == 0: q = False
                elif d == 0 and ch == '"': q = True
                elif ch == "{": d += 1
                elif ch == "}": d -= 1
                elif ch == ">" and d <= 0: break
                j += 1
            if j >= n: raise StgError("unterminated expression: " + raw[i:i + 40])
            e = raw[i + 1:j]
            if buf: out.append(("t", "".join(buf))); buf = []
            m = re.fullmatch(r"(\\[nrt])+", e.strip())
            if m: buf.append(e.strip().replace("\\n", "\n").replace("\\t", "\t").replace("\\r", ""))
            else: out.append(("e", e.strip()))
            i = j + 1; continue
        buf.append(c); i += 1
    if buf: out.append(("t", "".join(buf)))
    return out

NAME = r"[A-Za-z_]\w*"
def split_top(s, ch):
    out, d, q, cur = [], 0, False, ""
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == "\\": i += 1; cur += s[i]
            elif c == '"': q = False
        elif c == '"': q = True; cur += c
        elif c in "([{": d += 1; cur += c
        elif c in ")]}": d -= 1; cur += c
        elif c == ch and d == 0: out.append(cur); cur = ""
        else: cur += c
        i += 1
    out.append(cur)
    return out

def parse(raw):
    toks = tokens(raw)
    def seq(i, stop):
        out = []
        while i < len(toks):
            k, v = toks[i]
            if k == "t": out.append(Text(v)); i += 1; continue
            if v in ("else", "endif"):
                if not stop: raise StgError("<%s> without <if>" % v)
                return out, i
            m = re.fullmatch(r"if\s*\(\s*(!?)\s*(%s(?:\.%s)*)\s*\)" % (NAME, NAME), v)
            if m:
                a, i = seq(i + 1, True); b = []
                if i >= len(toks): raise StgError("<if> without <endif>")
                if toks[i][1] == "else": b, i = seq(i + 1, True)
                if i >= len(toks) or toks[i][1] != "endif": raise StgError("<if> without <endif>")
                out.append(If(m.group(1) == "!", m.group(2), a, b)); i += 1; continue
            out.append(expr(v)); i += 1
        if stop: raise StgError("<if> without <endif>")
        return out, i
    return seq(0, False)[0]

def unq(s): return s[1:-1].replace("\\n", "\n").replace("\\t", "\t").replace('\\"', '"').replace("\\\\", "\\")
def expr(v):
    parts = [x.strip() for x in split_top(v, ";")]
    head, sep, fmt = parts[0], None, None
    whole = head
    for o in (y.strip() for x in parts[1:] for y in split_top(x, ",")):
        m = re.fullmatch(r'(separator|format)\s*=\s*\\?("(?:.*)")', o, re.S)
        if m:
            if m.group(1) == "separator": sep = unq(m.group(2).replace('\\"', '"'))
            else: fmt = unq(m.group(2))
        elif o not in ("wrap", "anchor"): raise StgError("unknown option %s" % o)
    m = re.fullmatch(r"(%s(?:\.%s)*)\s*:\s*\{\s*(%s)\s*\|(.*)\}" % (NAME, NAME, NAME), head, re.S)
    if m: return Attr(m.group(1), sep, fmt, (m.group(2), parse(m.group(3) if False else re.sub(r"^", "", head[head.index("|") + 1:head.rindex("}")]))))
    m = re.fullmatch(r"(%s(?:\s*,\s*%s)+)\s*:\s*\{\s*(%s(?:\s*,\s*%s)+)\s*\|(.*)\}" % (NAME, NAME, NAME, NAME), whole, re.S)
    if m: return Attr(re.sub(r"\s", "", m.group(1)), sep, fmt, (re.sub(r"\s", "", m.group(2)), parse(whole[whole.index("|") + 1:whole.rindex("}")])))
    m = re.fullmatch(r"(%s)\s*\((.*)\)" % NAME, head, re.S)
    if m:
        args = []
        for a in split_top(m.group(2), ","):
            a = a.strip()
            if not a: continue
            k = re.match(r"(%s)\s*=\s*(.*)" % NAME, a, re.S)
            args.append((k.group(1), k.group(2).strip()) if k else (None, a))
        return Call(m.group(1), args)
    if re.fullmatch(r"%s(\.%s)*" % (NAME, NAME), head): return Attr(head, sep, fmt)
    raise StgError("expression not understood: <%s>" % v)

def arg_parts(e):
    if e.startswith("["): return [x.strip() for x in split_top(e[1:-1], ",")]
    return [e]

class Group:
    def __init__(s, path):
        s.path = path; s.name = os.path.basename(path)[:-4]
        s.T = load(path); s.body = {}; s.errors = []
        for t in s.T.values():
            try: s.body[t.name] = parse(t.raw)
            except StgError as e: s.errors.append((t, str(e)))

    # every attribute named in a template must be a parameter of it or (for helpers) of every template that uses it
    def scope(s, name, env, out, seen=()):
        """env: names visible; out: list of (template, message)"""
        t = s.T[name]
        def go(nodes, env):
            for x in nodes:
                if isinstance(x, Attr):
                    for e in x.e.split(","):
                        if e.split(".")[0] not in env: out.append((t, "refers to the unknown attribute <%s>" % e))
                    if x.anon: go(x.anon[1], env | set(x.anon[0].split(",")) | {"i"})
                elif isinstance(x, If):
                    if x.name.split(".")[0] not in env: out.append((t, "tests the unknown attribute <%s>" % x.name))
                    go(x.a, env); go(x.b, env)
                elif isinstance(x, Call):
                    if x.name == "length": continue
                    u = s.T.get(x.name)
                    if u is None: out.append((t, "uses the template <%s()>, which does not exist in the group" % x.name)); continue
                    if any(f is None for f, _ in x.args) and len(u.params) != 1: out.append((t, "passes an unnamed argument to <%s()>, which takes %d" % (x.name, len(u.params))))
                    for f, e in x.args:
                        if f is not None and f not in u.params: out.append((t, "passes the argument %s, which <%s()> does not take" % (f, x.name)))
                        for p in arg_parts(e):
                            if not p.startswith('"') and p.split(".")[0] not in env: out.append((t, "passes the unknown attribute %s to <%s()>" % (p, x.name)))
                    if x.name not in seen and len(seen) < 8 and x.name in s.body: s.scope(x.name, env | set(u.params), out, seen + (x.name,))
        go(s.body[name], set(env))

    def conds(s, name, bound=None, seen=()):
        """names of the parameters of `name` whose presence or truth selects text, through the helpers used"""
        bound = {p: {p} for p in s.T[name].params} if bound is None else bound
        out = []
        def add(n):
            for r in bound.get(n.split(".")[0], ()):
                r2 = r + n[len(n.split(".")[0]):]
                if r2 not in out: out.append(r2)
        def go(nodes):
            for x in nodes:
                if isinstance(x, If): add(x.name); go(x.a); go(x.b)
                elif isinstance(x, Attr) and x.anon: go(x.anon[1])
                elif isinstance(x, Call) and x.name in s.body and len(seen) < 8 and x.name not in seen:
                    u = s.T[x.name]; b2 = dict(bound)
                    for f, e in x.args:
                        f = f or u.params[0]
                        b2[f] = set().union(*[bound.get(p.split(".")[0], set()) if not p.startswith('"') else set() for p in arg_parts(e)])
                    passed = {f or u.params[0] for f, _ in x.args}
                    for p in u.params:
                        if p not in passed: b2[p] = set()
                    for r in s.conds(x.name, b2, seen + (x.name,)):
                        if r not in out: out.append(r)
        go(s.body[name])
        return out

    def render(s, name, env):
        out = []
        def val(e):
            if e.startswith('"'): return unq(e)
            b, *r = e.split(".")
            v = env.get(b)
            for k in r:
                if k == "Length" and isinstance(v, (list, tuple)): v = len(v)
                elif callable(getattr(v, "prop", None)): v = v.prop(k)
                elif isinstance(v, dict): v = v.get(k)
                else: v = None if v is None else "%s_%s" % (v, k)
            return v
        def truth(v): return not (v is None or v is False or (isinstance(v, (list, tuple)) and not v))
        def text(v, sep=None, fmt=None):
            if v is None or v is False and False: return ""
            if isinstance(v, (list, tuple)): return (sep or "").join(text(x, None, fmt) for x in v)
            if isinstance(v, bool): return "true" if v else "false"
            if isinstance(v, int) and fmt == "X2": return "%02X" % v
            return str(v)
        def go(nodes):
            for x in nodes:
                if isinstance(x, Text): out.append(x.t)
                elif isinstance(x, Attr):
                    if x.anon:
                        cols = []
                        for e in x.e.split(","):
                            v = val(e); cols.append(list(v) if isinstance(v, (list, tuple)) else [] if v is None else [v])
                        o = []
                        for k, its in enumerate(itertools.zip_longest(*cols)):
                            e2 = dict(env); e2.update(zip(x.anon[0].split(","), its)); e2.setdefault("i", k + 1)
                            o.append(s._go(x.anon[1], e2))
                        out.append((x.sep or "").join(o))
                    else: out.append(text(val(x.e), x.sep, x.fmt))
                elif isinstance(x, If):
                    go(x.a if truth(val(x.name)) != x.neg else x.b)
                elif isinstance(x, Call):
                    if x.name == "length":
                        v = val(x.args[0][1]); out.append(str(len(v) if isinstance(v, (list, tuple)) else 1)); continue
                    u = s.T[x.name]; e2 = dict(env)
                    passed = {}
                    for f, e in x.args:
                        ps = [val(p) for p in arg_parts(e)]
                        passed[f or u.params[0]] = ps[0] if len(ps) == 1 else "".join(text(p) for p in ps)
                    for p in u.params: e2[p] = None
                    e2.update(passed)
                    out.append(s.render(x.name, e2))
        go(s.body[name])
        return "".join(out)
    def _go(s, nodes, env):
        k = "<anon>"; old = s.body.get(k); s.body[k] = nodes; s.T[k] = Template(k, [], "", True, s.path, 0)
        try: return s.render(k, env)
        finally:
            if old is None: s.body.pop(k)
            else: s.body[k] = old
            s.T.pop(k, None)

DIRS = {"c": ("StgC", "_c.stg"), "a": ("StgAda", "_a.stg"), "scala": ("StgScala", "_scala.stg")}
def groups(lang):
    d, suf = DIRS[lang]
    fs = sorted(glob.glob(os.path.join(REPO, d, "*" + suf)))
    if not fs: raise AnalysisError("no template group in " + d)
    return {os.path.basename(f)[:-len(suf)]: Group(f) for f in fs}
