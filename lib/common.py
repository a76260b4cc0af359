"""Shared plumbing: locations, findings, evidence, reporting."""
import json, os, sys, time, tempfile, shutil, re, hashlib, subprocess, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RT = os.path.join(REPO, "asn1crt")
NCPU = max(2, min(8, os.cpu_count() or 2))

class AnalysisError(Exception):
    """The analysis could not be carried out on the current tree (anchor gone, does not compile, ...)."""

def tier():
    return os.environ.get("VERIF_TIER", "quick")

def run(cmd, timeout=600, cwd=None, env=None, check=False):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd,
                       env=env, text=True, errors="replace")
    if check and p.returncode:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(map(str, cmd))[:300], p.stdout[-3000:]))
    return p.returncode, p.stdout

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif_")
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def pmap(fn, items, workers=None):
    with cf.ThreadPoolExecutor(max_workers=workers or NCPU) as ex:
        return list(ex.map(fn, items))

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

class Report:
    """Collects violations, matches them against the known findings, writes evidence and decides the exit code."""
    def __init__(self, prop, level, technique):
        self.prop, self.level, self.technique = prop, level, technique
        self.t0 = time.time()
        self.viol = []       # dicts: key, what, where
        self.cov = {}
        self.assumptions = []
        self.notes = []
    def violation(self, key, what, where=""):
        if not any(v["key"] == key for v in self.viol):
            self.viol.append({"key": key, "what": what, "where": where})
    def known(self, key):
        return any(re.fullmatch(k, key) for f in known_findings() if f["property"] == self.prop and f.get("status") == "open" for k in f["keys"])
    def finish(self):
        kf = [f for f in known_findings() if f["property"] == self.prop and f.get("status") == "open"]
        fresh, known = [], {}
        for v in self.viol:
            m = next((f for f in kf if any(re.fullmatch(k, v["key"]) for k in f["keys"])), None)
            if m: known.setdefault(m["id"], (m, []))[1].append(v)
            else: fresh.append(v)
        for fid, (m, vs) in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s [%s, %d site(s)]" % (self.prop, m["what"], fid, len(vs)))
        rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, self.prop + ".json")
        if fresh:
            json.dump({"property": self.prop, "violations": fresh, "notes": self.notes}, open(replay, "w"), indent=1)
            for v in fresh[:40]:
                print("  violated: %s\n     at %s\n     key %s" % (v["what"], v["where"], v["key"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        elif os.path.exists(replay):
            os.remove(replay)
        cov = dict(self.cov)
        cov.setdefault("explanation", self.technique)
        ev = {"property": self.prop, "tier": tier(), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(fresh)}
        if self.notes: ev["coverage"]["notes"] = self.notes
        ev["coverage"]["known_findings_seen"] = sorted(known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s: %s in %.1fs  %s" % (self.prop, "VIOLATED" if fresh else "held", time.time() - self.t0,
              {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        return 1 if fresh else 0
