"""Common parts of all checks: building, running, confirming, reporting."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import build  # noqa: E402

REPO = build.REPO
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = build.JOBS
THOROUGH = TIER == "thorough"
KNOWN = os.path.join(ROOT, "known_findings.txt")


class CheckError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""


class Found(Exception):
    """A violation was found and confirmed: the rest need not be explored."""


class Report:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.violations = []     # (message, replay dict)
        self.assumptions = []
        self.exhaustive = True
        self.parts = []
        self.tmp = tempfile.mkdtemp(prefix=f"vmc-{pid}-")

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def part(self, **kw):
        self.parts.append(kw)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, msg, replay):
        self.violations.append((msg, replay))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def known(self):
        out = []
        try:
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("finding:") and f"property={self.pid} " in line + " ":
                    out.append(line[len("finding:"):].strip())
        except OSError:
            pass
        return out

    def split(self):
        known = self.known()
        old, fresh = [], []
        for msg, replay in self.violations:
            hit = next((k for k in known if k.split("|", 1)[-1].strip() and k.split("|", 1)[-1].strip() in msg), None)
            if hit:
                old.append(hit)
            else:
                fresh.append((msg, replay))
        return old, fresh

    def stop_if_violated(self):
        if self.split()[1]:
            self.exhaustive = False
            raise Found()

    def finish(self):
        old, fresh = self.split()
        for hit in old:
            print(f"KNOWN-FINDING: {hit}")
        cov = dict(self.cov)
        cov["samples"] = self.samples
        cov["exhaustive"] = bool(self.exhaustive)
        if self.parts:
            cov["parts"] = self.parts
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        print(f"{self.pid} {TIER}: " + ", ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, int)) +
              f", exhaustive={self.exhaustive}, {ev['wall_s']} s")
        if not fresh:
            print(f"{self.pid}: held on everything explored")
            return 0
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for n, (msg, replay) in enumerate(fresh[:5]):
            rp = os.path.join(ROOT, "replays", f"{self.pid}-{n}.json")
            with open(rp, "w") as f:
                json.dump(dict(replay, property=self.pid, message=msg), f, indent=1)
            print(f"  {msg}")
            print(f"VIOLATION property={self.pid} replay={rp}")
        return 1


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                              errors="replace", **kw)
    except subprocess.TimeoutExpired:
        return None
