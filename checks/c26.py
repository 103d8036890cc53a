"""C26: the example rotations are what their data says, at the library's version and level, and simulate end to end."""
import importlib
import math
import os
import random

import numpy as np

from checks.c01 import spec_key
from vp import damage as D
from vp import gen as G
from vp import model as M
from vp.env import JOBS, REPO, VERSIONS, DamageBuilder, DamageSimulator, SkillModifier, create_skill_library, real_lib
from vp.harness import RealCrash, call

from ama_xiv_combat_sim.example_rotations.example_rotation_utils import ExampleRotationUtils
from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
from ama_xiv_combat_sim.example_rotations.get_example_rotations import get_example_rotations

RULE = ("distinct (library, example rotation): the button presses, events and damage instances of the returned builder are compared with "
        "the reference run of the rotation's data, its expected damage with the formulas, at the version and level of the library")
ASSUMPTIONS = ["the rotation data modules list skills, party skills, stats and the range of versions as on the original tree"]
STRENGTH = {"SCH": 351, "WHM": 214, "SGE": 234, "AST": 195, "SMN": 351, "RDM": 214, "BLM": 175, "PCT": 214}
ROLES = ("tank", "healer", "melee", "ranged", "caster")


def data():
    """every rotation the data modules hold: [(key, {level: entry})]"""
    out = []
    base = os.path.join(REPO, "ama_xiv_combat_sim", "example_rotations")
    for r in ROLES:
        for f in sorted(os.listdir(os.path.join(base, r))):
            if not f.endswith("_data.py"):
                continue
            m = importlib.import_module(f"ama_xiv_combat_sim.example_rotations.{r}.{f[:-3]}")
            for x in vars(m).values():
                if hasattr(x, "get_rotation_data") and isinstance(getattr(x, "rotations", None), dict):
                    out += list(x.rotations.items())
    return out


def valid(e, v):
    return e is not None and float(e["start_version"]) <= float(v) and (e.get("end_version") is None or float(v) <= float(e["end_version"]))


def stats_dict(e, v, l):
    s = dict(e["stats"])
    job = s["job_class"]
    s.setdefault("weapon_delay", G.WEAPON_DELAY[job])
    s.update(version=v, level=l)
    return s


def mod_of(m):
    if m is None:
        return None
    return M.Mod(frozenset(m.with_condition), M.enum_name(m.guaranteed_crit), M.enum_name(m.guaranteed_dh), bool(m.force_combo),
                 bool(m.ignore_cast_times), bool(m.ignore_application_delay), m.bonus_percent)


def reference(lib, e, v, l, cfg):
    st = stats_dict(e, v, l)
    job = st["job_class"]
    view = M.LibView(lib, job)
    seq = [M.Press(None, lib.get_skill(n, job), M.Mod(), "", ("Default Target",)) for n in e["skills"]]
    timed = []
    for p in e.get("party_skills") or ():
        sk = lib.get_skill(p[1], p[2])
        m = mod_of(p[3]) if len(p) > 3 else M.Mod() if p[2] == job else M.Mod(M.canon(sk.off_class_default_condition))
        timed.append(M.Press(int(round(p[0] * 1000)), sk, m, "" if p[2] == job else p[2], ("Default Target",)))
    tl = M.Timeline(view, G.player_of(st), cfg, seq, timed)
    a = M.damage_instances(view, tl.final)
    ka = sorted(repr(G.inst_key_model(x)) for x in a)
    for ties in ((-1, 1), (1, -1), (-1, -1)):
        if ka != sorted(repr(G.inst_key_model(x)) for x in M.damage_instances(view, tl.final, ties=ties)):
            return tl, None, st
    return tl, a, st


NO_AUTOS = ("WHM", "AST", "SGE")  # their examples come without autos


def one(ctx, key, e, v, l, lib, rb, autos=True, trailing=True, listed=True):
    given = autos is None  # the rotation as it was handed out
    if given:
        autos, trailing = not (listed and e["stats"]["job_class"] in NO_AUTOS), True
    try:
        tl, inst, st = reference(lib, e, v, l, M.Config(0, autos, trailing, None, (), "Default Target"))
    except (M.Ambiguous, M.ForceConflict, M.NoSpec) as x:
        ctx.count("skipped: " + (str(x) or type(x).__name__))
        return None
    s = call(rb.get_stats)
    for f in ("wd", "main_stat", "det_stat", "crit_stat", "dh_stat", "speed_stat", "version", "level", "job_class", "weapon_delay", "tenacity"):
        if f in st and getattr(s, f, None) != st[f]:
            return f"stats of {key}: {f} is {getattr(s, f, None)}, its data says {st[f]}"
    if not given:
        call(rb.set_enable_autos, autos)
        call(rb.set_ignore_trailing_dots, trailing)
    else:
        ctx.count("rotations taken as handed out")

    def go():
        q = rb.get_skill_timing()
        ev = list(q.get_q())
        return ev, rb.get_button_press_timing(), DamageBuilder(s, lib).get_damage_instances(q)
    ev, presses, real = call(go)
    for what, a, b in (("button presses", [G.press_key_real(p) for p in presses], [G.press_key_model(p) for p in tl.presses]),
                       ("events", [G.ev_key_real(x) for x in ev], [G.ev_key_model(x) for x in tl.final])):
        x, y = G.diff(a, b)
        ctx.count(what + " compared", len(b))
        if x or y:
            return f"{key} at {v}/{l}, {what}: only in code {sorted(x)[:2]}, only in reference {sorted(y)[:2]}"
    if inst is None:
        ctx.count("skipped: order of simultaneous events")
        return None
    x, y = G.diff([G.inst_key_real(i) for i in real], [G.inst_key_model(i) for i in inst])
    ctx.count("damage instances compared", len(inst))
    if x or y:
        return f"{key} at {v}/{l}, damage: only in code {sorted(x)[:2]}, only in reference {sorted(y)[:2]}"
    # the simulation of it
    np.random.seed(ctx.rng.randint(0, 10**6))
    sim = call(DamageSimulator, s, real, 20)
    rows = call(sim.get_per_skill_damage, rb=rb)
    if len(rows) != len(real):
        return f"{key} at {v}/{l}: {len(rows)} rows for {len(real)} damage instances"
    total = math.fsum(r.expected_damage for r in rows)
    raw = np.asarray(call(sim.get_raw_damage))
    ctx.count("rotations simulated")
    if not np.all(np.isfinite(raw)) or listed and (not total > 0 or not np.all(raw > 0)):
        return f"{key} at {v}/{l}: expected damage {total}"
    st = dict(st)
    st.setdefault("healer_or_caster_strength", STRENGTH.get(st["job_class"]))
    for x, row in zip(real, call(sim.get_damage_ranges)):
        _, sk, m, (b, d), _, _ = x[:6]
        spec = sk.get_damage_spec(m)
        exp = D.expected(st, spec, M.enum_name(m.guaranteed_crit), M.enum_name(m.guaranteed_dh), b, d)
        ctx.count("damage ranges compared")
        q = None if exp["conflict"] or not spec.potency else D.check_range(exp, row[1:])
        if q:
            return f"{key} at {v}/{l}, {sk.name}: {q}"
    return None


def generated(ctx, case):
    """rotation data of our own, in the format of the data modules, over all jobs, levels and version ranges"""
    rng = random.Random(case["seed"])
    v, l = case["v"], case["l"]
    lib = real_lib(v, l)
    info = SpecificRotations()
    call(info.set_version, v)
    call(info.set_level, l)
    vs = sorted({x for x, _ in VERSIONS}, key=float)
    entries = {}
    for i in range(rng.randint(1, 3)):
        e = {}
        for lev in rng.choice([(l,), (90, 100), (190 - l,)]):
            job = rng.choice([j for j in JOBS if call(lib.has_job_class, j)])
            ji = G.job_info((v, l), lib, job)
            st = G.rand_stats(rng, job, v, l, delay=False)
            st = {k: x for k, x in st.items() if k not in ("version", "level", "num_roles_in_party")}
            if rng.random() < 0.5:
                st.pop("healer_or_caster_strength", None)
            party = []
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                oj = rng.choice([j for j in JOBS if call(lib.has_job_class, j)] + [job])
                pool = ji.usable if oj == job else G.job_info((v, l), lib, oj).party
                if not pool:
                    continue
                n = rng.choice(pool)
                q = (rng.choice([0, 1, 2.5, 0.125, 7.333, -1.5]) + rng.randint(0, 20), n, oj)
                if rng.random() < 0.3:
                    ks = G.cond_keys(lib.get_skill(n, oj))
                    q += (SkillModifier(with_condition=", ".join(sorted(rng.choice(ks)))) if ks else SkillModifier(),)
                party.append(q)
                if rng.random() < 0.2:
                    party.append(q)
            a = rng.choice(vs)
            e[lev] = dict(stats=st, skills=tuple(rng.choice(ji.gcds if rng.random() < 0.6 else ji.usable + ji.waits[:50]) for _ in range(rng.randint(1, 12))),
                          start_version=a)
            b = rng.choice([None] + [x for x in vs if float(x) >= float(a)])
            if b is not None or rng.random() < 0.5:
                e[lev]["end_version"] = b
            if party or rng.random() < 0.5:
                e[lev]["party_skills"] = tuple(party)
        entries[f"R{i}"] = e
        call(info.add_rotation_data, f"R{i}", e)
    for k, e in entries.items():
        ok = valid(e.get(l), v)
        if bool(call(info.rotation_is_valid, k)) != ok:
            return f"validity of a rotation at {v}/{l}: code {not ok}, its data {[(x, y['start_version'], y.get('end_version')) for x, y in e.items()]}"
        ctx.count("validity decided")
        if not ok:
            continue
        got = call(ExampleRotationUtils.get_example_rotation, lib, k, info)
        if got is None or got[0] != k:
            return f"rotation {k} at {v}/{l} came back as {got and got[0]}"
        ctx.count("generated rotations")
        ctx.seen((v, l, case["seed"], k))
        p = one(ctx, k, e[l], v, l, lib, got[1], *rng.choice([(None, None), (None, None), (True, True), (False, False)]), False)
        if p:
            return p
    return None


def check(ctx, case):
    if case["kind"] == "gen":
        return generated(ctx, case)
    v, l = case["v"], case["l"]
    lib = real_lib(v, l) if case.get("shared", True) else call(create_skill_library, v, l)
    rots = data()
    want = {k: e[l] for k, e in rots if valid(e.get(l), v)}
    if case.get("warm"):  # another library's rotations in between must not matter
        other = tuple(case["warm"])
        call(get_example_rotations, real_lib(*other))
    got = call(get_example_rotations, lib)
    if set(got) != set(want):
        return f"rotations of {v}/{l}: {sorted(set(got) ^ set(want))} too many or missing"
    if case.get("warm"):
        call(get_example_rotations, real_lib(*other))
    ctx.count("rotations listed", len(got))
    for i, k in enumerate(sorted(got)):
        if case.get("only") and k != case["only"]:
            continue
        if not case.get("only") and not ctx.mine(i):
            continue
        p = one(ctx, k, want[k], v, l, lib, got[k], *case.get("flags", (True, True)))
        ctx.seen((v, l, k, case.get("flags"), case.get("warm")))
        if p:
            return p
    return None


def run(ctx):
    flags = [(True, True), (False, True), (True, False), (False, False)]
    for n, (v, l) in enumerate(VERSIONS):
        for j in range(ctx.n(4, 10)):
            if ctx.stop():
                break
            rng = random.Random(f"{ctx.base_seed}/{n}/{j}")
            case = dict(kind="rot", v=v, l=l, flags=(None, None) if j == 0 else rng.choice(flags), warm=rng.choice(VERSIONS) if j else None)
            try:
                p = check(ctx, case)
            except RealCrash as e:
                p = f"crash: {e}"
            if p:
                ctx.violation(p, case)
    for j in range(ctx.n(60, 600)):
        if ctx.stop():
            break
        v, l = ctx.rng.choice(VERSIONS)
        case = dict(kind="gen", v=v, l=l, seed=ctx.rng.randint(0, 10**9))
        try:
            p = check(ctx, case)
        except RealCrash as e:
            p = f"crash: {e}"
        if p:
            ctx.violation(p, case)
    ctx.sample(dict(observed=dict(ctx.counts)))
    ctx.need("damage instances compared", 2000)
    ctx.need("generated rotations", 50)
    ctx.need("rotations taken as handed out", 50)


def replay(ctx, case):
    ctx.workers, ctx.worker = 1, 0
    try:
        p = check(ctx, case)
    except RealCrash as e:
        p = f"crash: {e}"
    if p:
        ctx.violation(p, case)
