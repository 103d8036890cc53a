"""C13: job gauges, over random histories and end to end."""
import math
import random

from vp import decl, past, engine, model as M
from vp.env import JobResourceSettings, JobResourceSpec, Skill, SkillModifier
from vp.gen import Opts
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker

RULE = "distinct gauge histories (1 ms around every expiry included) whose reported amounts were compared after every step"
RES = ["Gauge", "Stack", "Fire"]
NAMES = [f"S{i}" for i in range(6)]


def history(rng):
    h = dict(settings={}, skills={}, ops=[])
    for r in RES:
        h["settings"][r] = dict(max_value=rng.choice([1, 2, 3, 5, 10]), skill_allowlist=rng.sample(NAMES, rng.randint(3, 6)),
                                expiry_from_last_gain=rng.choice([math.inf, 5000, 15000]), add_number_to_conditional=rng.random() < 0.7)
    for n in NAMES:
        d = {}
        for k in ([""] if rng.random() < 0.8 else ["", "X"]):
            cs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.06:
                    cs.append(dict(clear_all_resources_only=True))
                    continue
                c = dict(name=rng.choice(RES), change=rng.choice([1, 1, 2, 3, -1, -2, -math.inf]))
                if rng.random() < 0.35:
                    c["duration"] = rng.choice([3000, 8000, 15000])
                if rng.random() < 0.5:
                    c["refreshes_duration_of_last_gained"] = True
                cs.append(c)
            d[k] = cs
        h["skills"][n] = d
    return h


def build(h):
    def one(cs):
        return tuple(JobResourceSpec(**c) for c in cs)
    sk = {n: Skill(name=n, job_resource_spec=one(d[""]) if len(d) == 1 else {k: one(v) for k, v in d.items()}) for n, d in h["skills"].items()}
    st = {n: JobResourceSettings(**{k: (tuple(v) if isinstance(v, list) else v) for k, v in s.items()}) for n, s in h["settings"].items()}
    return sk, st


def play(h, rng=None, steps=None):
    sk, st = build(h)
    real = call(JobResourceTracker, dict(st))
    mod = M.Resources(st)
    t = rng.choice([0, 0, -3000, 100]) if rng else 0
    out = dict(held=0, empty=0, boundary=0, adds=0)
    n = len(h["ops"]) if rng is None else steps
    for i in range(n):
        if rng is not None:
            ends = [e[1] for hh in mod.hist.values() for e in hh if e[1] != math.inf and e[1] >= t]
            for nm, hh in mod.hist.items():
                ex = st[nm].expiry_from_last_gain
                if hh and ex != math.inf:
                    ends += [e[0] + ex for e in hh if e[0] + ex >= t]
            if ends and rng.random() < 0.35:
                t = max(t, rng.choice(ends) + rng.choice([-1, 0, 0, 1]))
                out["boundary"] += 1
            else:
                t += rng.choice([0, 1, 10, 1500, 2500, 2500, 5000])
            op = [rng.choice(["add", "add", "get"]), t, rng.choice(NAMES), rng.random() < 0.2]
            h["ops"].append(op)
        else:
            op = h["ops"][i]
        kind, t, nm, x = op
        m = SkillModifier(with_condition="X") if x else SkillModifier()
        if kind == "add":
            out["adds"] += 1
            call(real.add_resource, t, sk[nm], m)
            mod.add(t, sk[nm], frozenset(["X"] if x else []))
        for q in ([nm] if kind == "get" else NAMES[:2]):
            a = tuple(sorted(M.canon(call(real.compile_job_resources, t, sk[q]))))
            b = tuple(sorted(mod.conditions(t, sk[q])))
            out["held" if b else "empty"] += 1
            if a != b:
                return f"step {i} {op}, asked for {q}: code {a}, reference {b}", out
    return None, out


def run(ctx):
    decl.declarations(ctx, decl.JobResourceSpec, decl.JobResourceSettings)
    for i in range(ctx.n(2500, 60000)):
        if ctx.stop():
            break
        rng = random.Random(f"C13/{ctx.seed}/{i}")
        h = history(rng)
        try:
            p, st = play(h, rng, rng.choice([5, 12, 30]))
        except RealCrash as e:
            p, st = f"crash: {e}", {}
        ctx.count("resource changes", st.get("adds", 0))
        ctx.count("queries with resources", st.get("held", 0))
        ctx.count("queries without", st.get("empty", 0))
        ctx.count("steps within 1 ms of an expiry", st.get("boundary", 0))
        ctx.seen(h)
        if i < 2:
            ctx.sample(str(h["ops"][:6]))
        if p:
            ctx.violation(f"{p} [settings {h['settings']} skills {h['skills']} ops {h['ops'][-8:]}]", dict(kind="history", h=h))
    o = Opts(synth=0.7, must=("res", "cond"), snap=0, downtime=0, autos=0.1, multi=0.05, length=(8, 35), condp=0.15,
             jobs=["BLM", "BRD", "SAM", "NIN", "MNK", "AST", "DRG", "MCH", "PCT", "VPR", "SMN", "RDM", "GNB", "SGE"])
    engine.explore(ctx, o, ctx.n(250, 4000), ("instances",))
    past.explore(ctx, ctx.n(150, 4000), ("res", "cond", "buffs", "follow"), ("res", "cond"))
    ctx.need("queries with resources", 5000)
    ctx.need("steps within 1 ms of an expiry", 3000)


def replay(ctx, case):
    if case["kind"] == "scenario":
        return engine.replay_scenario(ctx, case)
    if case["kind"] == "past":
        p = past.check(ctx, case)
        return ctx.violation(p, case) if p else None
    p, _ = play(case["h"])
    if p:
        ctx.violation(p)
