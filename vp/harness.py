"""Check context: budgets, observation counters, evidence, violations, replays."""
import argparse
import contextlib
import hashlib
import io
import json
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


def load_known():
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("known: "):
                parts = dict(x.split("=", 1) for x in line[len("known: "):].split(" ")[:2])
                what = line.split(" ", 3)[3]
                known[(parts["property"], parts["key"])] = what
    return known


class Ctx:
    def __init__(self, prop, tier, seed, rule, assumptions=(), worker=0, workers=1):
        self.prop, self.tier, self.base_seed = prop, tier, seed
        self.worker, self.workers = worker, workers
        self.seed = f"{seed}.{worker}"  # every worker explores its own part of the space
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.rule = rule
        self.assumptions = list(assumptions)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known_hit = {}
        self.known = load_known()
        self.needs = {}
        self.only = None

    def mine(self, i):
        """Splits a fixed enumeration over the workers."""
        return i % self.workers == self.worker

    def export(self):
        return dict(evaluations=self.evaluations, distinct=self.distinct, samples=self.samples, counts=self.counts,
                    violations=self.violations, known_hit=self.known_hit, needs=self.needs)

    def merge(self, d):
        self.evaluations += d["evaluations"]
        self.distinct |= d["distinct"]
        self.samples = (self.samples + d["samples"])[:4]
        for k, v in d["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in d["known_hit"].items():
            self.known_hit[k] = self.known_hit.get(k, 0) + v
        self.needs.update(d["needs"])
        self.violations += d["violations"]

    # budget -----------------------------------------------------------
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def over(self, quick=420.0, thorough=1500.0):
        return self.elapsed() > (quick if self.quick else thorough)

    def stop(self):
        return len(self.violations) >= 3 or self.over()

    # observations -----------------------------------------------------
    def seen(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def need(self, name, at_least):
        """The run is only conclusive if the counter reached this."""
        self.needs[name] = at_least

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def violation(self, what, replay=None, key=None):
        if key is not None and (self.prop, key) in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return False
        self.violations.append((what, replay))
        return True

    # finish -----------------------------------------------------------
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["none"], observed=self.counts,
                   known_findings_seen=self.known_hit)
        ev = dict(property=self.prop, tier=self.tier, seed=self.base_seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(self.elapsed(), 2), violations=len(self.violations))
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, what in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {self.known[(self.prop, k)]} [{k}, seen {what}x]")
        if self.violations:
            for i, (what, replay) in enumerate(self.violations[:5]):
                path = os.path.join(EVID, f"replay_{self.prop}_{i}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, what=what, seed=self.base_seed, tier=self.tier, case=replay), f, indent=1, default=str)
                print(f"  {what}"[:2000])
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        missing = {k: v for k, v in self.needs.items() if self.counts.get(k, 0) < v}
        if missing:
            print(f"INCONCLUSIVE property={self.prop}: not observed enough: {missing} (saw {self.counts})")
            return 3
        print(f"HELD property={self.prop} evaluations={self.evaluations} distinct={len(self.distinct)} observed={self.counts} wall={self.elapsed():.1f}s")
        return 0


class RealCrash(Exception):
    """The code under test raised on an input in the property's domain."""

    def __init__(self, exc):
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f for f in tb if "ama_xiv_combat_sim" in f.filename]
        self.in_repo = bool(where)
        loc = f" at {os.path.basename(where[-1].filename)}:{where[-1].name}" if where else ""
        super().__init__(f"{type(exc).__name__}: {exc}{loc}")
        self.exc = exc


@contextlib.contextmanager
def quiet():
    """The code under test prints warnings; keep check output readable."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def call(fn, *a, **kw):
    try:
        with quiet():
            return fn(*a, **kw)
    except RealCrash:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        raise RealCrash(e)


def parse_args(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8") or 8))
    return ap.parse_args(argv)
