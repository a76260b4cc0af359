"""Effect analyses over the runtime's IR: rooted, field-sensitive, inclusion-based points-to with the set of objects every
operation may write; call graph, stack objects, loops; what happens to the status of nested operations."""
import re
from llir import *
from cprog import *

# ------------------------------------------------------------------ debug types
class Types:
    def __init__(self, M): self.M = M; self.c = {}
    def field(self, n, k):
        m = re.search(r"\b%s: !(\d+)" % k, self.M.meta.get(n, "")); return int(m.group(1)) if m else None
    def name(self, n):
        m = re.search(r'\bname: "([^"]*)"', self.M.meta.get(n, "")); return m.group(1) if m else None
    def tag(self, n):
        m = re.search(r"tag: (DW_TAG_\w+)", self.M.meta.get(n, "")); return m.group(1) if m else None
    def describe(self, n):
        """type node -> (names met on the way, pointer?, const pointee?)"""
        names, ptr, const = [], False, False
        for _ in range(12):
            if n is None: break
            t = self.tag(n)
            nm = self.name(n)
            if nm: names.append(nm)
            if t == "DW_TAG_pointer_type": ptr = True
            elif t == "DW_TAG_const_type" and ptr: const = True
            n = self.field(n, "baseType")
        return names, ptr, const
    def signature(self, F):
        """-> (return type names, [(names, pointer?, const?) per parameter]) or None"""
        sp = getattr(F, "sp", None)
        if sp is None: return None
        t = self.field(sp, "type")
        ts = self.field(t, "types") if t is not None else None
        if ts is None: return None
        m = re.search(r"\{(.*)\}", self.M.meta.get(ts, ""))
        items = [x.strip() for x in m.group(1).split(",")] if m else []
        r = [self.describe(int(x[1:])) if x != "null" else ([], False, False) for x in items]
        return (r[0][0] if r else []), r[1:]

def line(M, dbg):
    m = re.search(r"line: (\d+)", M.meta.get(dbg, "")); return int(m.group(1)) if m else 0

def attach_sp(text, M):
    """subprogram node of every function"""
    for l in text.split("\n"):
        if l.startswith("define "):
            m = re.search(r"@(?:\"([^\"]+)\"|([\w.$-]+))\(", l); d = re.search(r"!dbg !(\d+)", l)
            n = m.group(1) or m.group(2)
            if n in M.funcs and d: M.funcs[n].sp = int(d.group(1))

# ------------------------------------------------------------------ library models
WRITES0 = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat", "sprintf", "snprintf", "vsprintf", "vsnprintf", "stpcpy", "fgets", "fread"}
RET0 = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat", "strchr", "strrchr", "strstr", "memchr", "strpbrk", "fgets"}
COPIES = {"memcpy", "memmove"}
HEAP = {"malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "strdup", "strndup", "asprintf", "vasprintf", "getline", "alloca", "valloc", "memalign", "reallocarray", "fopen", "tmpfile", "open_memstream", "mmap", "sbrk"}
STATEFUL = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "localtime", "gmtime", "ctime", "asctime", "setlocale", "localeconv", "tmpnam", "strerror", "getenv", "setenv", "putenv", "unsetenv",
            "strsignal", "ttyname", "getlogin", "mblen", "mbtowc", "wctomb", "mbrtowc", "ecvt", "fcvt", "signal", "atexit", "lgamma", "hsearch", "hcreate", "readdir", "gethostbyname", "inet_ntoa", "dlerror", "setjmp", "longjmp", "nl_langinfo"}

def base(n):
    n = n.lstrip("@").strip('"')
    m = re.match(r"llvm\.(memcpy|memmove|memset)\b", n)
    return m.group(1) if m else n

# ------------------------------------------------------------------ points-to
class PT:
    """what one root operation may write"""
    MAXF = 64
    def __init__(self, M, root, args=None):
        self.M, self.root = M, root
        self.pts = {}; self.heap = {}; self.writes = {}; self.reach = {root}; self.ret = {}; self.ext = {}; self.child = {}
        F = M.funcs[root]
        for i, (ty, n) in enumerate(F.params):
            if ty.k == "ptr": self.pts[root, n] = {("P%d" % i, 0)}
        self.changed = True
        n = 0
        while self.changed:
            self.changed = False; n += 1
            if n > 60: raise AnalysisError("points-to analysis of %s does not converge" % root)
            for f in sorted(self.reach):
                if f in M.funcs: self.func(M.funcs[f])
    def add(self, k, s):
        o = self.pts.get(k)
        if o is None:
            if s: self.pts[k] = self.norm(s); self.changed = True
            return
        star = {x for x, a in o if a == "*"}
        new = {(x, a) for x, a in s if x not in star} - o
        if not new: return
        self.pts[k] = self.norm(o | new); self.changed = True
    def norm(self, s):
        """an object met at many offsets is met at any"""
        star = {x for x, a in s if a == "*"}
        cnt = {}
        for x, a in s: cnt[x] = cnt.get(x, 0) + 1
        star |= {x for x, n in cnt.items() if n > 12}
        return {(x, a) for x, a in s if x not in star} | {(x, "*") for x in star}
    def val(self, F, v):
        k = v[0]
        if k == "r": return self.pts.get((F.name, v[1]), set())
        if k == "g": return {(v[1], 0)}
        if k == "gep":
            off = self.gepoff(v[1], v[3])
            return {(o, self.plus(a, off)) for o, a in self.val(F, v[2])}
        if k == "cast": return self.val(F, v[3])
        return set()
    @staticmethod
    def plus(a, b):
        if a == "*" or b == "*": return "*"
        r = a + b
        return r if -4096 <= r <= 1 << 16 else "*"
    def gepoff(self, bt, idx):
        off = 0; t = bt
        for i, (it, v) in enumerate(idx):
            c = v[1] if v[0] == "c" else None
            if c is not None and c >> (it.w - 1): c -= 1 << it.w
            if i == 0:
                if c is None: return "*"
                off += c * bt.size
            elif t.k == "arr":
                t = t.el
                if c is None: return "*"
                off += c * t.size
            elif t.k == "struct":
                t, o = t.els[c]; off += o
            else: return "*"
        return off
    def load(self, o, a):
        r = set()
        if a == "*":
            for (x, y), s in self.heap.items():
                if x == o: r |= s
        else: r |= self.heap.get((o, a), set()) | self.heap.get((o, "*"), set())
        if o[0] == "P" and a != "*":        # what the caller's object points to
            if o.count(".") < 3:
                r = r | {("%s.%d" % (o, a), 0)}
        return r
    def store(self, o, a, s):
        if not s: return
        h = self.heap.get((o, a))
        if h is None: self.heap[o, a] = set(s); self.changed = True
        elif not s <= h: h |= s; self.changed = True
    def write(self, ps, F, dbg):
        for o, a in ps:
            w = self.writes.get((o, a))
            if w is None: self.writes[o, a] = (F.name, line(self.M, dbg))
    def func(self, F):
        M = self.M
        for b in F.order:
            for I in F.blocks[b]:
                op = I[0]
                if op == "alloca": self.add((F.name, I[1]), {("A:%s:%s" % (F.name, I[1]), 0)})
                elif op == "gep":
                    off = self.gepoff(I[2], I[4])
                    s = {(o, self.plus(a, off)) for o, a in self.val(F, I[3])}
                    self.add((F.name, I[1]), s)
                elif op == "phi":
                    if I[2].k == "ptr":
                        for v in I[3].values(): self.add((F.name, I[1]), self.val(F, v))
                elif op == "select":
                    if I[3].k == "ptr": self.add((F.name, I[1]), self.val(F, I[4]) | self.val(F, I[5]))
                elif op == "cast":
                    if I[3].k == "ptr" or I[5].k == "ptr": self.add((F.name, I[1]), self.val(F, I[4]))
                elif op == "bin" and I[3].k == "int" and I[3].w == M.psize * 8:
                    s = {(o, "*") for v in (I[4], I[5]) for o, _ in self.val(F, v)}
                    if s: self.add((F.name, I[1]), s)
                elif op == "freeze": self.add((F.name, I[1]), self.val(F, I[3]))
                elif op == "load":
                    if I[2].k == "ptr":
                        s = set()
                        for o, a in self.val(F, I[3]): s |= self.load(o, a)
                        self.add((F.name, I[1]), s)
                elif op == "store":
                    d = self.val(F, I[4])
                    self.write(d, F, I[5])
                    if I[2].k == "ptr":
                        s = self.val(F, I[3])
                        for o, a in d: self.store(o, a, s)
                elif op == "ret":
                    if I[2] is not None and I[2].k == "ptr": self.add(("ret", F.name), self.val(F, I[3]))
                elif op == "call": self.call(F, I)
    def call(self, F, I):
        M = self.M
        _, dest, rt, callee, args, dbg = I
        targets = []
        if callee.startswith("@"): targets = [callee]
        else:
            targets = [o for o, _ in self.pts.get((F.name, callee), set()) if o.startswith("@")]
        for t in targets:
            n = t.lstrip("@").strip('"')
            if n in M.funcs:
                G = M.funcs[n]
                if n not in self.reach: self.reach.add(n); self.changed = True
                for (ty, p), (at, av) in zip(G.params, args):
                    if av is not None and ty.k == "ptr": self.add((n, p), self.val(F, av))
                if dest and rt.k == "ptr": self.add((F.name, dest), self.pts.get(("ret", n), set()))
                continue
            b = base(t)
            self.ext.setdefault(b, (F.name, line(M, dbg)))
            if b in WRITES0 and args:
                d = self.val(F, args[0][1]); self.write(d, F, dbg)
                if b in COPIES:
                    src = self.val(F, args[1][1])
                    cp = set()
                    for o, a in src:
                        for (x, y), s in list(self.heap.items()):
                            if x == o: cp |= s
                    for o, a in d: self.store(o, "*", cp)
            if dest and rt.k == "ptr" and b in RET0 and args: self.add((F.name, dest), {(o, "*") if b not in COPIES else (o, a) for o, a in self.val(F, args[0][1])})

# ------------------------------------------------------------------ call graph
def callees(M, F):
    """direct callees with a site; indirect ones as None"""
    for b in F.order:
        for I in F.blocks[b]:
            if I[0] == "call": yield (I[3].lstrip("@").strip('"') if I[3].startswith("@") else None), I

def sccs(g):
    idx, low, st, on, out, c = {}, {}, [], set(), [], [0]
    def go(v):
        work = [(v, iter(g.get(v, ())))]
        idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w); work.append((w, iter(g.get(w, ())))); break
                elif w in on: low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == u: break
                    out.append(comp)
    for v in g:
        if v not in idx: go(v)
    return out

def load_runtime(files, defines=(), target=None, ubsan=False, passes="mem2reg", extra_src=""):
    with Scratch() as d:
        def one(f):
            o = os.path.join(d, os.path.basename(f) + ".ll")
            compile_ll(d, os.path.join(RT, f), o, defines, target, ubsan, mem2reg=False)
            return o
        outs = pmap(one, files)
        all_ = os.path.join(d, "all.ll")
        rc, o = run([LINK, "-S", "-o", all_] + outs, timeout=120)
        if rc: raise AnalysisError("link failed: " + o[-1000:])
        rc, o = run([OPT, "-S", "-passes=" + passes, all_, "-o", all_ + ".m"], timeout=120)
        if rc: raise AnalysisError("opt failed: " + o[-1000:])
        text = open(all_ + ".m").read()
        M = parse_module(text)
        attach_sp(text, M)
        return M
