"""C12: combos, over random histories and end to end."""
import random

from vp import decl, past, engine, gen as G, model as M
from vp.env import ComboSpec, JOBS, Skill, SkillModifier, VERSIONS, real_lib
from vp.gen import Opts
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker

RULE = "distinct sequences of combo actions (1 ms around the 30 s limit included) whose success or failure was compared"
NAMES = [f"S{i}" for i in range(7)]


def history(rng):
    h = dict(skills={}, breakers={}, ops=[])
    for n in NAMES:
        cs = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            cs.append(dict(combo_actions=rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3])), combo_group=rng.choice([0, 0, 1, 2]),
                           combo_auto_succeed=rng.random() < 0.08))
        if rng.random() < 0.08:
            cs.insert(0, dict(break_all_combos_only=True))
        d = {"": cs}
        if rng.random() < 0.25:
            d["X"] = [dict(combo_actions=rng.sample(NAMES, rng.randint(0, 2)), combo_group=rng.choice([0, 1, 2]))]
        h["skills"][n] = d
    for g in range(3):
        if rng.random() < 0.5:
            h["breakers"][str(g)] = [x for x in range(3) if x != g and rng.random() < 0.6]
    return h


def build(h):
    def one(cs):
        return tuple(ComboSpec(**{k: (tuple(v) if isinstance(v, list) else v) for k, v in c.items()}) for c in cs)
    sk = {n: Skill(name=n, combo_spec=one(d[""]) if len(d) == 1 else {k: one(v) for k, v in d.items()}) for n, d in h["skills"].items()}
    return sk, {int(k): tuple(v) for k, v in h["breakers"].items()}


def play(h, rng=None, steps=None, sk=None, br=None, names=None):
    if sk is None:
        sk, br = build(h)
    real = call(ComboTracker, dict(br) if br else None)
    mod = M.Combos(dict(br))
    t = 0
    out = dict(ok=0, fail=0, boundary=0)
    names = names or NAMES
    n = len(h["ops"]) if rng is None else steps
    nxt = {}
    for k, s in sk.items():
        for v in G.values(s.combo_spec):
            for c in v:
                for a in c.combo_actions:
                    nxt.setdefault(a, []).append(k)
    last = None
    for i in range(n):
        if rng is not None:
            lasts = [v[0] for v in mod.last.values() if v[0] > -M.INF]
            if lasts and rng.random() < 0.25:
                t = max(t, rng.choice(lasts) + 30000 + rng.choice([-1, 0, 0, 1]))
                out["boundary"] += 1
            else:
                t += rng.choice([0, 10, 1500, 2500, 2500, 5000])
            nm = rng.choice(nxt[last]) if last in nxt and rng.random() < 0.6 else rng.choice(names)
            last = nm
            op = [t, nm, rng.random() < 0.15, rng.random() < 0.07]
            h["ops"].append(op)
        else:
            op = h["ops"][i]
        t, nm, x, force = op
        kw = dict(with_condition="X") if x else {}
        a = tuple(sorted(M.canon(call(real.compile_and_update_combo, t, sk[nm], SkillModifier(force_combo=force, **kw)))))
        b = tuple(sorted(mod.use(t, sk[nm], frozenset(["X"] if x else []), force)))
        out["fail" if b else "ok"] += 1
        if a != b:
            return f"step {i} {op}: code {a or 'combo'}, reference {b or 'combo'}", out
    return None, out


def run(ctx):
    decl.declarations(ctx, decl.ComboSpec)
    for i in range(ctx.n(2500, 60000)):
        if ctx.stop():
            break
        rng = random.Random(f"C12/{ctx.seed}/{i}")
        if i % 4 == 3:  # the real skills of a job
            v, l = rng.choice(VERSIONS)
            lib = real_lib(v, l)
            job = rng.choice([j for j in JOBS if lib.has_job_class(j)])
            info = G.job_info(f"{v}/{l}", lib, job)
            sk = {n: info.skills[n] for n in info.usable}
            h = dict(real=[v, l, job], ops=[])
            combo = [n for n in info.usable if any(len(x) for x in G.values(sk[n].combo_spec))]
            if not combo:
                continue
            args = dict(sk=sk, br=lib.get_all_combo_breakers(job), names=combo + combo + list(sk))
        else:
            h, args = history(rng), {}
        try:
            p, st = play(h, rng, rng.choice([5, 12, 40]), **args)
        except RealCrash as e:
            p, st = f"crash: {e}", {}
        except M.NoSpec:
            continue
        ctx.count("combos succeeded", st.get("ok", 0))
        ctx.count("combos failed", st.get("fail", 0))
        ctx.count("steps within 1 ms of the combo limit", st.get("boundary", 0))
        ctx.seen(h)
        if i < 2:
            ctx.sample(str(h["ops"][:6]))
        if p:
            ctx.violation(f"{p} [{h.get('real') or h['skills']} ops {h['ops'][-8:]}]", dict(kind="history", h=h))
    o = Opts(synth=0.6, must=("combo",), snap=0, downtime=0, autos=0.1, multi=0.05, length=(8, 35), condp=0.15, modp=0.2)
    engine.explore(ctx, o, ctx.n(250, 4000), ("instances",))
    past.explore(ctx, ctx.n(150, 4000), ("combo", "cond", "buffs", "follow"), ("combo",))
    ctx.need("combos succeeded", 3000)
    ctx.need("combos failed", 3000)


def replay(ctx, case):
    if case["kind"] == "scenario":
        return engine.replay_scenario(ctx, case)
    if case["kind"] == "past":
        p = past.check(ctx, case)
        return ctx.violation(p, case) if p else None
    h = case["h"]
    args = {}
    if "real" in h:
        v, l, job = h["real"]
        lib = real_lib(v, l)
        info = G.job_info(f"{v}/{l}", lib, job)
        args = dict(sk={n: info.skills[n] for n in info.usable}, br=lib.get_all_combo_breakers(job))
    p, _ = play(h, **args)
    if p:
        ctx.violation(p)
