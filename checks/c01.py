"""C01: asking again gives the same answer, and nothing the caller handed in is changed."""
import copy
import random

import numpy as np

from vp import engine
from vp import gen as G
from vp import model as M
from vp.env import DamageBuilder, DamageSimulator, RotationBuilder, SkillModifier, Stats
from vp.harness import RealCrash, call

RULE = ("distinct scenarios that were each laid out several times: again on the same builder, incrementally with rebuilds between "
        "the additions, on a second builder sharing library, stats and modifier objects, and through the set_* methods; plus "
        "before/after fingerprints of every object handed in")
ASSUMPTIONS = ["numpy's global generator is seeded before each of the two simulations that must agree"]


def spec_key(x, depth=0):
    """Recursive plain-data image of a spec/skill/library object."""
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, (spec_key(y, depth + 1) for y in x)))))
    if isinstance(x, (list, tuple)):
        return tuple(spec_key(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return tuple(sorted(((repr(spec_key(k, depth + 1)), spec_key(v, depth + 1)) for k, v in x.items()), key=lambda y: y[0]))
    if hasattr(x, "name") and hasattr(x, "value") and type(x).__mro__[1].__name__ in ("Enum", "IntEnum", "Flag"):
        return x.name
    if hasattr(x, "__dict__") and depth < 12:
        return (type(x).__name__,) + tuple((k, spec_key(v, depth + 1)) for k, v in sorted(vars(x).items()) if not callable(v) and not k.startswith("_"))
    if hasattr(x, "__slots__"):
        return (type(x).__name__,) + tuple((k, spec_key(getattr(x, k, None), depth + 1)) for k in x.__slots__)
    return repr(x)


def lib_key(desc, lib, jobs):
    r = []
    for j in jobs:
        info = G.job_info(G.libkey(desc), lib, j)
        for n in info.usable:
            r.append(spec_key(lib.get_skill(n, j)))
        r.append(repr(spec_key(lib.get_status_effect_priority(j))))
        r.append(repr(spec_key(lib.get_all_combo_breakers(j))))
        r.append(repr(spec_key(lib.get_all_resource_settings(j))))
    return hash(tuple(r))


class Changed(Exception):
    pass


def picture(rb, stats, lib, db=None):
    q = rb.get_skill_timing()
    evs = q.get_q()
    ev = sorted(repr(G.ev_key_real(e)) for e in evs)
    db = db or DamageBuilder(stats, lib)
    inst = db.get_damage_instances(q)
    if ev != sorted(repr(G.ev_key_real(e)) for e in evs):
        raise Changed("building damage changed the events handed out before")
    return (ev, sorted(repr(G.press_key_real(p)) for p in rb.get_button_press_timing()),
            sorted(repr(G.inst_key_real(x)) for x in inst)), q, inst


def cmp(what, a, b):
    for n, x, y in zip(("events", "button presses", "damage instances"), a, b):
        if x != y:
            d1, d2 = G.diff(x, y)
            return f"{what}: {n} differ: first {d1[:2]} then {d2[:2]}"
    return None


def add_one(rb, p, mod):
    if p["t"] is None:
        kw = {} if p.get("times") is None else dict(num_times=p["times"])
        rb.add_next(p["skill"], skill_modifier=mod, job_class=p["job"], targets=p["targets"], **kw)
    else:
        rb.add(p["t"] / 1000, p["skill"], skill_modifier=mod, job_class=p["job"], targets=p["targets"])


def check(sc, seed):
    rng = random.Random(seed)
    lib = G.get_lib(sc["lib"])
    seen = {}
    jobs = sorted({sc["job"]} | {p["job"] for p in sc["presses"] if p["job"]})
    lib0 = lib_key(sc["lib"], lib, jobs)
    stats = call(Stats, **sc["stats"])
    s0 = spec_key(stats)
    mods = [G.real_mod(p["mod"]) for p in sc["presses"]]
    if rng.random() < 0.5:  # one modifier object used for several presses
        for i in range(1, len(mods)):
            for j in range(i):
                if sc["presses"][i]["mod"] == sc["presses"][j]["mod"]:
                    mods[i] = mods[j]
                    seen["shared modifier objects"] = 1
                    break
    m0 = [None if m is None else spec_key(m) for m in mods]
    dt = G.real_downtime(sc["rb"]["downtime"])
    d0 = repr(dt)
    probs = []

    def go():
        rb = G.make_rb(sc, lib, stats, downtime=dt)
        for p, m in zip(sc["presses"], mods):
            add_one(rb, p, m)
        a, q, inst = picture(rb, stats, lib)
        # one damage builder used for several timelines (a queue itself is consumed by building damage from it)
        db = DamageBuilder(stats, lib)
        inst2 = db.get_damage_instances(rb.get_skill_timing())
        inst3 = db.get_damage_instances(rb.get_skill_timing())
        for x, w in ((inst2, "new damage builder"), (inst3, "same damage builder used again")):
            k = sorted(repr(G.inst_key_real(y)) for y in x)
            if k != a[2]:
                probs.append(f"{w}: damage instances differ: {G.diff(a[2], k)}"[:600])
        b, _, _ = picture(rb, stats, lib)
        probs.append(cmp("second call on the same builder", a, b))
        # incrementally
        rb2 = G.make_rb(sc, lib, stats, downtime=dt)
        for p, m in zip(sc["presses"], mods):
            add_one(rb2, p, m)
            if rng.random() < 0.2:
                rb2.get_skill_timing()
                seen["rebuilds between additions"] = seen.get("rebuilds between additions", 0) + 1
        c, _, _ = picture(rb2, stats, lib)
        probs.append(cmp("builder that was asked between additions", a, c))
        # set_* methods
        sc3 = copy.deepcopy(sc)
        sc3["rb"]["autos"] = not sc["rb"]["autos"]
        sc3["rb"]["trailing"] = not sc["rb"]["trailing"]
        rb3 = G.make_rb(sc3, lib, stats, downtime=dt)
        for p, m in zip(sc["presses"], mods):
            add_one(rb3, p, m)
        if rng.random() < 0.5:
            rb3.get_skill_timing()
        rb3.set_enable_autos(sc["rb"]["autos"])
        rb3.set_ignore_trailing_dots(sc["rb"]["trailing"])
        e, _, _ = picture(rb3, stats, lib)
        probs.append(cmp("builder configured through set_enable_autos/set_ignore_trailing_dots", a, e))
        # what was handed out can be changed without effect
        bp = rb.get_button_press_timing()
        for x in bp:
            if isinstance(x, list):
                x[0] = -1
        if isinstance(bp, list):
            bp.clear()
        probs.append(cmp("after changing the returned button presses", a, picture(rb, stats, lib)[0]))
        # simulation
        order = [repr(G.inst_key_real(x)) for x in inst]
        n = 50
        np.random.seed(seed % 2**31)
        s1 = DamageSimulator(stats, inst, n, save_damage_matrix=True)
        np.random.seed(seed % 2**31)
        s2 = DamageSimulator(stats, inst, n, save_damage_matrix=True)
        s3 = DamageSimulator(stats, list(inst), 3)
        if not np.array_equal(np.asarray(s1.get_damage_matrix()), np.asarray(s2.get_damage_matrix())):
            probs.append("two simulations from the same random seed sample different damage")
        if not np.array_equal(s1.get_raw_damage(), s2.get_raw_damage()):
            probs.append("two simulations from the same random seed have different totals")
        e1, e3 = list(s1.get_expected_damage_per_damage_instance()), list(s3.get_expected_damage_per_damage_instance())
        if e1 != e3:
            probs.append("expected damage depends on the number of samples")
        e1b = list(s1.get_expected_damage_per_damage_instance())
        if e1 != e1b or s1.get_expected_damage() != s2.get_expected_damage():
            probs.append("expected damage differs between two calls")
        if order != [repr(G.inst_key_real(x)) for x in inst]:
            probs.append("simulating changed the caller's damage instances")
        sh = list(inst)
        rng.shuffle(sh)
        keep = [id(x) for x in sh]
        s4 = DamageSimulator(stats, sh, 2)
        if [id(x) for x in sh] != keep:
            probs.append("simulating reordered the caller's damage instances")
        if abs(s4.get_expected_damage() - s1.get_expected_damage()) > 1e-6 * max(1, s1.get_expected_damage()):
            probs.append("expected damage depends on the order of the damage instances")
        seen["instances"] = len(inst)
    call(go)
    if spec_key(stats) != s0:
        probs.append("the Stats object changed")
    if [None if m is None else spec_key(m) for m in mods] != m0:
        probs.append("a SkillModifier object handed in changed")
    if repr(dt) != d0:
        probs.append("the downtime windows handed in changed")
    if lib_key(sc["lib"], lib, jobs) != lib0:
        probs.append("the skill library changed")
    return [p for p in probs if p], seen


def in_domain(sc):
    G.run_model(sc)
    return True


def run(ctx):
    o = G.Opts(autos=0.5, trailing=0.4, snap=0.25, downtime=0.35, multi=0.2, synth=0.45, length=(2, 22), modp=0.3, party=0.15)
    done = i = 0
    n = ctx.n(200, 2500)
    while done < n and i < 3 * n and not ctx.stop():
        i += 1
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/{i}")
        sc = G.gen_scenario(rng, o)
        if not sc["presses"]:
            continue
        seed = rng.randint(0, 10**6)
        try:
            try:
                tl, _ = G.run_model(sc, instances=False)
                if len(tl.events) * len(sc["presses"]) > 4000:
                    continue  # laid out many times below: keep it affordable
            except M.Ambiguous:
                pass  # still deterministic
            probs, seen = check(sc, seed)
        except (M.NoSpec, M.ForceConflict):
            continue
        except RealCrash as e:
            try:  # only a violation if the scenario is in the domain
                tl, mi = G.run_model(sc)
                if conflict(sc, mi):
                    continue
            except G.SKIP:
                continue
            probs, seen = [f"crash: {e}"], {}
        done += 1
        ctx.count("scenarios")
        for k, v in seen.items():
            ctx.count(k, v)
        ctx.seen((sc, seed), nontrivial=len(sc["presses"]) > 1)
        if done <= 2:
            ctx.sample(dict(lib=sc["lib"], job=sc["job"], rb=sc["rb"], presses=len(sc["presses"])))
        if probs:
            small = engine.shrink(sc, lambda c: check(c, seed)[0], tries=40) if not probs[0].startswith("crash") else sc
            try:
                probs = check(small, seed)[0] or probs
            except Exception:  # noqa
                pass
            ctx.violation(f"{probs[0]} [lib={small['lib']} rb={small['rb']} presses={small['presses'][:5]}]",
                          dict(scenario=small, seed=seed))
    ctx.need("scenarios", 100)
    ctx.need("rebuilds between additions", 200)
    ctx.need("shared modifier objects", 50)
    ctx.need("instances", 3000)


def conflict(sc, mi):
    from vp import damage as D
    return any(D.expected(sc["stats"], x["spec"], x["mod"].gc, x["mod"].gdh, x["buffs"], x["debuffs"])["conflict"] for x in mi)


def replay(ctx, case):
    probs, _ = check(case["scenario"], case["seed"])
    for p in probs:
        ctx.violation(p)
