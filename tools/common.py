"""What every check shares: violations, known findings, evidence."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Check:
    def __init__(self, pid, rule, level="other"):
        self.pid, self.rule, self.level = pid, rule, level
        if pid:
            Check.current = self
        self.t0 = time.time()
        self.obl = []          # (kind, where, ok, detail)
        self.viol = {}
        self.unknown = []
        self.analysed = {}
        self.assumptions = []

    def ok(self, kind, where, detail=""):
        self.obl.append((kind, where, "holds", detail))

    def bad(self, kind, where, detail):
        """A definite violation. `kind` and `where` (no line numbers) identify it."""
        self.obl.append((kind, where, "violated", detail))
        self.viol.setdefault(kind + "|" + where, detail)

    def unk(self, kind, where, detail=""):
        """Not decided: reported in the evidence, never as a violation."""
        self.obl.append((kind, where, "undecided", detail))
        self.unknown.append((kind, where, detail))

    def decide(self, cond, kind, where, detail="", good=""):
        if cond is None:
            self.unk(kind, where, detail)
        elif cond:
            self.ok(kind, where, good)
        else:
            self.bad(kind, where, detail)

    def parallel(self, jobs, workers=6):
        """runs jobs (functions of a Check) in forked processes, and takes over what they find"""
        import multiprocessing as mp
        global _jobs
        _jobs = jobs
        sys.stdout.flush()
        with mp.get_context("fork").Pool(min(workers, len(jobs) or 1), maxtasksperchild=1) as pool:
            for obl, ana in pool.imap(_job, range(len(jobs)), chunksize=1):
                for k, w, r, d in obl:
                    {"holds": self.ok, "violated": self.bad, "undecided": self.unk}[r](k, w, d)
                for k, v in ana.items():
                    self.count(k, v)

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def finish(self):
        known = {}
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                m = re.match(r"^known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3)
        new = {k: v for k, v in self.viol.items() if k not in known}
        for k in self.viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, k, known[k]))
        held = sum(1 for o in self.obl if o[2] == "holds")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        samples = [dict(obligation=k, where=w, result=r, detail=str(d)[:400]) for k, w, r, d in self.obl[:400]]
        cov = {
            "explanation": "Static analysis of the current source. Rule: " + self.rule,
            "rule": self.rule,
            "obligations": len(self.obl),
            "discharged": held,
            "violated": len(self.viol),
            "undecided": len(self.unknown),
            "analysed": self.analysed,
            "obligation_list": samples,
        }
        ev = dict(property=self.pid, tier=os.environ.get("VERIF_TIER", "quick"),
                  seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d hold, %d undecided, %d violated; %s" % (
            self.pid, len(self.obl), held, len(self.unknown), len(self.viol), self.analysed))
        for k, w, d in self.unknown[:20]:
            print("  undecided: %s at %s: %s" % (k, w, str(d)[:200]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.json")
            with open(rp, "w") as f:
                json.dump([dict(key=k, detail=v) for k, v in new.items()], f, indent=1, default=str)
            for k, v in new.items():
                print("  violated: %s: %s" % (k, v))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not self.obl:
            print("nothing was analysed")
            return 2
        return 0


_jobs = []


def _job(i):
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 << 20)
    out = []

    def go():
        c = Check("", "")
        try:
            _jobs[i](c)
        except Exception as e:
            c.unk("analysis", "job %d" % i, "%s: %s" % (type(e).__name__, e))
        out.append(([(k, w, r, str(d)) for k, w, r, d in c.obl], c.analysed))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]
