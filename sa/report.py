"""Obligation bookkeeping, violation / known-finding lines and evidence files."""
import json
import os
import pickle
import re
import sys
import time
import traceback

from . import engine as E
from .harness import Harness, showt
from .grammar import TxError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TEALISH_REPO", "/repo")
DEADLINE = 780      # seconds; obligations not begun by then are undecided, never silently passed


def known_findings():
    out, p = {}, os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=<(.*?)> (.*)$", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Violation(Exception):
    def __init__(self, msg, where=None, detail=None, sub=None):
        Exception.__init__(self, msg)
        self.where = where or []
        self.detail = detail
        self.sub = sub


class Ctx:
    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.repo = E.Repo(REPO)
        self.queue = []
        self.obs = []           # (rule, ident, status, text)
        self.violations = []
        self.known = known_findings()
        self.hit_known = []
        self.covered = set()
        self.paths = 0
        self.counts = {}
        self.assumptions = []
        self.rules = {}

    # --------------------------------------------------------------- helpers
    def rule(self, name, text):
        self.rules[name] = text

    def harness(self, **types):
        return Harness(self.repo, types)

    def note(self, results):
        for r in results:
            self.paths += 1
            self.covered |= r.interp.covered

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, rule, ident, fn):
        """queue one obligation; fn raises Violation when the source violates the rule"""
        self.queue.append((rule, ident, fn))

    def decide(self, rule, ident, fn):
        """-> (status, text, violation fields)"""
        if time.time() - self.t0 > DEADLINE:
            return "undecided", "out of time", None
        try:
            r = fn()
            return "holds", (r if isinstance(r, str) else ""), None
        except Violation as v:
            return "VIOLATED", str(v), ([str(w) for w in v.where], v.detail, v.sub)
        except (E.AnalysisError, TxError, RecursionError) as e:
            return "undecided", "%s: %s" % (type(e).__name__, str(e)[:300]), None
        except Exception as e:      # a construct outside the modelled subset
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            return "undecided", "%s: %s" % (type(e).__name__, str(e)[:300]), None

    def record(self, rule, ident, res):
        status, text, f = res
        if status == "VIOLATED":
            v = Violation(text, f[0], f[1], f[2])
            k = "%s/%s" % (rule, ident) + ("|" + v.sub if v.sub else "")
            if (self.prop, k) in self.known:
                self.obs.append((rule, ident, "known-finding", text))
                self.hit_known.append((k, self.known[(self.prop, k)]))
                return
            self.violations.append((rule, ident, v, k))
        self.obs.append((rule, ident, status, text))

    def drain(self):
        """decide all queued obligations on all cores (forked workers share the parsed source)"""
        q, self.queue = self.queue, []
        n = min(int(os.environ.get("SA_JOBS", "0")) or os.cpu_count() or 1, max(1, len(q) // 4))
        if n <= 1 or os.environ.get("SA_DEBUG"):
            for rule, ident, fn in q:
                self.record(rule, ident, self.decide(rule, ident, fn))
            return
        self.harness().warm()
        results, pipes = {}, []
        for w in range(n):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                code = 1
                try:
                    self.paths, self.covered, self.counts = 0, set(), {}
                    out = {}
                    for i in range(w, len(q), n):
                        out[i] = self.decide(*q[i])
                    with os.fdopen(wfd, "wb") as f:
                        pickle.dump((out, self.paths, self.covered, self.counts), f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wfd)
            pipes.append((pid, rfd))
        import threading

        def rd(rfd, slot):
            with os.fdopen(rfd, "rb") as f:
                slot.append(f.read())
        slots, ths = [], []
        for pid, rfd in pipes:
            s = []
            t = threading.Thread(target=rd, args=(rfd, s))
            t.start()
            slots.append(s)
            ths.append(t)
        for t in ths:
            t.join()
        for pid, _ in pipes:
            os.waitpid(pid, 0)
        for s in slots:
            if s and s[0]:
                out, paths, cov, cnt = pickle.loads(s[0])
                results.update(out)
                self.paths += paths
                self.covered |= cov
                for k, v in cnt.items():
                    self.count(k, v)
        for i, (rule, ident, fn) in enumerate(q):
            self.record(rule, ident, results.get(i, ("undecided", "worker died", None)))

    # ---------------------------------------------------------------- finish
    def finish(self, floor=1, explanation=""):
        self.drain()
        n = len(self.obs)
        und = [o for o in self.obs if o[2] == "undecided"]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        by = {}
        for o in self.obs:
            by.setdefault(o[0], {}).setdefault(o[2], 0)
            by[o[0]][o[2]] += 1
        vio = []
        rdir = os.path.join(ROOT, "evidence", "replay")
        for i, (rule, ident, v, k) in enumerate(self.violations):
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s_%d.txt" % (self.prop, i))
            with open(p, "w") as f:
                f.write("property %s\nrule %s: %s\nobligation %s\n\n%s\n" % (self.prop, rule, self.rules.get(rule, ""), k, v))
                for w in v.where:
                    f.write("  at %s\n" % w)
                if v.detail:
                    f.write("\n%s\n" % v.detail)
            if i < 25:
                print("%s %s: %s" % (rule, ident, v))
                for w in v.where[:6]:
                    print("    at %s" % w)
            vio.append({"rule": rule, "construct": ident, "message": str(v)[:600], "where": v.where[:8], "replay": p})
        seen = set()
        for k, what in self.hit_known:
            if k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": explanation,
                "rules": self.rules,
                "obligations": n,
                "obligations_by_rule": by,
                "undecided": [{"rule": o[0], "construct": o[1], "why": o[3]} for o in und][:40],
                "partitions_analysed": self.paths,
                "functions_analysed": len(self.covered),
                "functions": sorted(self.covered),
                "counts": self.counts,
                "source_digest": self.repo.digest(),
                "violation_list": vio,
                "source_files": len(self.repo.files),
                "samples": [{"rule": o[0], "construct": o[1], "status": o[2], "note": o[3][:200]} for o in self.obs[:: max(1, n // 25)]][:40],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions,
            "violations": len(vio),
        }
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations (%s), %d partitions, %d functions analysed, %.1fs" % (
            self.prop, n, ", ".join("%s %d" % (s, sum(1 for o in self.obs if o[2] == s)) for s in ("holds", "known-finding", "VIOLATED", "undecided")),
            self.paths, len(self.covered), time.time() - self.t0))
        for o in und[:8]:
            print("  undecided %s/%s: %s" % (o[0], o[1], o[3][:300]))
        if self.violations:
            for i, (rule, ident, v, k) in enumerate(self.violations[:25]):
                print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(rdir, "%s_%d.txt" % (self.prop, i))))
            return 1
        if n - len(und) < floor:
            print("analysis broken: %d obligations decided, at least %d expected" % (n - len(und), floor))
            return 2
        return 0
