"""Model of the compiler's removal of unused runtime functions (StgC/LangGeneric_c.fs, asn1scc/GenerateRTL.fs).

The lists are read from the F# sources of the current tree; the (small) textual algorithm is restated here.
Which functions remain is decided per requested function by the same closure, and what remains is compared with what the
C front end says the remaining code refers to."""
import os, re, subprocess, functools
from common import RT, REPO, AnalysisError, run

HDR_RE = r'[^\s]+\s+%s\s*\([^\)]*\)\s*\{'

def strs(t): return re.findall(r'"([^"]*)"', re.sub(r'//[^\n]*', '', t))

class Model:
    def __init__(self):
        p = os.path.join(REPO, "StgC", "LangGeneric_c.fs")
        fs = open(p, encoding="utf-8-sig").read().replace("\r", "")
        try:
            self.names = strs(re.search(r'override this\.RtlFuncNames[^=]*=\s*\[(.*?)\n\s*\]', fs, re.S).group(1))
            ap = re.search(r'override this\.getAlwaysPresentRtlFuncNames.*?\n(.*?)\n\s*override', fs, re.S).group(1)
            self.xer = []
            m = re.search(r'true\s*->\s*\[(.*?)\]', ap, re.S)
            if m: self.xer = strs(m.group(1)); ap = ap.replace(m.group(0), "")
            self.always = strs(ap)
            kc = re.search(r'let knownCases =\s*\[(.*?)\n\s*\]\s*\|>\s*Map', fs, re.S).group(1)
            kc = re.sub(r'//[^\n]*', '', kc)
            self.known = {a: strs(b) for a, b in re.findall(r'\(\s*"([^"]*)"\s*,\s*\[([^\]]*)\]\s*\)', kc)}
            gr = open(os.path.join(REPO, "asn1scc", "GenerateRTL.fs"), encoding="utf-8-sig").read().replace("\r", "")
            self.scanned = strs(re.search(r'let rtlContent =\s*\[(.*?)\]', gr, re.S).group(1))
            self.stripped = re.findall(r'writeResource di "(asn1crt[^"]*)" \(Some (?:removeUnused|fix_asn1crt)', gr)
            self.plain = re.findall(r'writeResource di "(asn1crt[^"]*)" None', gr)
        except AttributeError:
            raise AnalysisError("the lists of runtime functions in LangGeneric_c.fs/GenerateRTL.fs are not where the rule expects them")
        if len(self.names) < 100 or not self.scanned or not self.stripped: raise AnalysisError("runtime function lists not recognised")
        self.src = {}
        for f in self.stripped + self.plain:
            q = os.path.join(RT, f)
            if os.path.exists(q): self.src[f] = open(q, encoding="utf-8-sig", errors="replace").read().replace("\r\n", "\n")
        self.content = "\n".join(self.src.get(f, "") for f in self.scanned)
        self._pos = {}

    def span(self, s, fn):
        """the text removed for fn: from the line of the definition to its closing brace"""
        m = None
        for m0 in re.finditer(re.escape(fn) + r'\s*\([^\)]*\)\s*\{', s):
            i = m0.start()
            if i == 0 or not s[i - 1].isspace(): continue
            j = i - 1
            while j >= 0 and s[j].isspace(): j -= 1
            if j < 0: continue
            m = m0; st = j; break
        if m is None: return None
        while st > 0 and not s[st - 1].isspace(): st -= 1
        i, d = m.end(), 1
        n = len(s)
        while d > 0 and i < n:
            c = s[i]
            if c == "{": d += 1
            elif c == "}": d -= 1
            i += 1
        return s.rfind("\n", 0, st + 1) + 1, i

    @functools.lru_cache(None)
    def calls(self, fn):
        if fn in self.known: return tuple(self.known[fn])
        sp = self.span(self.content, fn)
        if not sp: return ()
        b = self.content[sp[0]:sp[1]]
        return tuple(x for x in self.names if x != fn and x in b)

    def closure(self, s):
        s, todo = set(s), list(s)
        while todo:
            for g in self.calls(todo.pop()):
                if g not in s: s.add(g); todo.append(g)
        return s

    def unused(self, generated, xer=False):
        direct = [x for x in self.names if x in generated]
        used = self.closure(self.always + (self.xer if xer else []) + direct)
        return [x for x in self.names if x not in used]

    @functools.lru_cache(None)
    def _body_len(self, f, fn): return self.span(self.src[f], fn)

    def strip_body(self, f, un):
        """removals one after the other, as the compiler does; the spans of different functions are disjoint or nested"""
        s = self.src[f]
        spans = []
        for fn in un:
            sp = self._body_len(f, fn)
            if sp: spans.append(sp)
        spans.sort()
        out, at = [], 0
        for a, b in spans:
            if a < at: at = max(at, b); continue
            out.append(s[at:a]); at = b
        out.append(s[at:])
        return "".join(out)

    def strip_header(self, f, un):
        return "\n".join(l for l in self.src[f].split("\n") if not any(u in l for u in un))

    def emit(self, d, un, stream=False):
        os.makedirs(d, exist_ok=True)
        for f, s in self.src.items():
            if f in self.stripped: s = self.strip_body(f, un) if f.endswith(".c") else self.strip_header(f, un)
            open(os.path.join(d, f), "w").write(s)
