"""Random hits (stats x damage spec x status effects) and their expected damage, for the damage checks."""
import random

from . import formulas as FM
from .env import (CASTERS, HEALERS, JOBS, NEW_JOBS, TANKS, VERSIONS, DamageClass, DamageSimulator, DamageSpec,
                  ForcedCritOrDH, Skill, SkillModifier, Stats)
from .gen import WEAPON_DELAY, rand_stats
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects

CLASSES = ["DIRECT", "DIRECT", "AUTO", "PHYSICAL_DOT", "MAGICAL_DOT", "PET"]
PAIRS = [(v, l, j) for v, l in VERSIONS for j in JOBS if not (j in NEW_JOBS and v == "6.55")]


def rand_eff(rng, force=0.15):
    kw = {}
    if rng.random() < 0.5:
        kw["crit_rate_add"] = rng.choice([0.02, 0.1, 0.2, 0.05, 0.02, 0.1, 0.2, 0.9, round(rng.random(), 3)])
    if rng.random() < 0.5:
        kw["dh_rate_add"] = rng.choice([0.03, 0.2, 0.1, 0.03, 0.2, 0.1, 0.9, round(rng.random(), 3)])
    if rng.random() < 0.5:
        kw["damage_mult"] = rng.choice([1.05, 1.1, 1.03, 1.0605, 1.2, 1.15 * 1.05, 0.75, 1.5, round(rng.uniform(0.3, 3), 3)])
    if rng.random() < 0.3:
        kw["main_stat_add"] = rng.choice([223, 262, 351, 392, rng.randint(1, 900)])
    if rng.random() < 0.2:
        kw["main_stat_mult"] = rng.choice([0.75, 0.5, 0.75, 0.5, 0.9, 1.1])
    if rng.random() < force:
        kw["guaranteed_crit"] = rng.choice(["FORCE_YES", "FORCE_NO"])
    if rng.random() < force:
        kw["guaranteed_dh"] = rng.choice(["FORCE_YES", "FORCE_NO"])
    return kw


def rand_hit(rng, cls=None, force=0.15):
    """plain-data description of one damage instance."""
    cls = cls or rng.choice(CLASSES)
    spec = dict(potency=rng.choice([0, 1, 20, 60, 90, 100, 110, 220, 300, 340, 457, 1000, rng.randint(1, 1600)]), cls=cls)
    if rng.random() < 0.25:
        spec["gc"] = rng.choice(["FORCE_YES", "FORCE_YES", "FORCE_NO"])
    if rng.random() < 0.25:
        spec["gdh"] = rng.choice(["FORCE_YES", "FORCE_YES", "FORCE_NO"])
    if rng.random() < 0.2:
        spec["trait"] = rng.choice([1, 1.3, 1.2])
    if cls == "PET":
        if rng.random() < 0.6:
            spec["pet_mod"] = rng.choice([100, 110, 115])
        if rng.random() < 0.6:
            spec["pet_scalar"] = rng.choice([0.88, 0.9, 1.0, 0.85])
    if rng.random() < 0.2:
        spec["sdm"] = rng.choice([1.1, 0.5, 1.5, 0.45, 2])
    mod = {}
    if rng.random() < force:
        mod["gc"] = rng.choice(["FORCE_YES", "FORCE_NO"])
    if rng.random() < force:
        mod["gdh"] = rng.choice(["FORCE_YES", "FORCE_NO"])
    return dict(spec=spec, mod=mod, b=rand_eff(rng, force / 2), d=rand_eff(rng, force / 2))


def rand_player(rng, job=None):
    v, l, j = rng.choice(PAIRS)
    if job:
        j = job
    st = rand_stats(rng, j, v, l, delay=False)
    if rng.random() < 0.05:
        st["main_stat"] = rng.randint(400, 700)
    if rng.random() < 0.05:
        st["main_stat"] = rng.randint(5200, 9000)
    if rng.random() < 0.1:
        st["wd"] = rng.randint(1, 250)
    if rng.random() < 0.1:
        st["weapon_delay"] = round(rng.uniform(0.8, 5), 2)
    if rng.random() < 0.05:
        st["crit_stat"] = rng.randint(4000, 9000)
    if rng.random() < 0.05:
        st["dh_stat"] = rng.randint(4000, 9000)
    return st


def stats_of(st):
    """the plain stats with defaults filled in, for the formulas."""
    r = dict(st)
    r.setdefault("weapon_delay", WEAPON_DELAY[st["job_class"]])
    r.setdefault("num_roles_in_party", 5)
    return r


def real_spec(s):
    kw = dict(potency=s["potency"], damage_class=DamageClass[s["cls"]])
    if "gc" in s:
        kw["guaranteed_crit"] = ForcedCritOrDH[s["gc"]]
    if "gdh" in s:
        kw["guaranteed_dh"] = ForcedCritOrDH[s["gdh"]]
    if "trait" in s:
        kw["trait_damage_mult_override"] = s["trait"]
    if "pet_mod" in s:
        kw["pet_job_mod_override"] = s["pet_mod"]
    if "pet_scalar" in s:
        kw["pet_scalar"] = s["pet_scalar"]
    if "sdm" in s:
        kw["single_damage_mult"] = s["sdm"]
    return DamageSpec(**kw)


def real_eff(e):
    kw = dict(e)
    for k in ("guaranteed_crit", "guaranteed_dh"):
        if k in kw:
            kw[k] = ForcedCritOrDH[kw[k]]
    return StatusEffects(**kw)


def real_modifier(m):
    kw = {}
    if "gc" in m:
        kw["guaranteed_crit"] = ForcedCritOrDH[m["gc"]]
    if "gdh" in m:
        kw["guaranteed_dh"] = ForcedCritOrDH[m["gdh"]]
    return SkillModifier(**kw)


def real_parts(h, name="hit"):
    """(skill, modifier, (buffs, debuffs)) of the code under test."""
    return Skill(name=name, damage_spec=real_spec(h["spec"])), real_modifier(h["mod"]), (real_eff(h["b"]), real_eff(h["d"]))


def expected(st, spec, mod_gc, mod_gdh, b, d):
    """dict of what the hit must look like (sets where float rounding could go either way)."""
    st = stats_of(st)
    cr, dr, conflict = FM.rates(st, spec, mod_gc, mod_gdh, b, d)
    r = dict(crit=cr, dh=dr, conflict=conflict)
    if conflict:
        return r
    base = FM.base_damage(st, spec, mod_gc, mod_gdh, b, d)
    bonus = FM.crit(st["crit_stat"], st["level"])[1]
    trait = FM.trait_mult(st["job_class"]) if spec.trait_damage_mult_override is None else FM.frac(spec.trait_damage_mult_override)
    mult = FM.E(b, "damage_mult") * FM.E(d, "damage_mult")
    r.update(base=base, bonus=bonus, trait=trait, mult=mult, ranges=FM.ranges(base, bonus, trait, mult))
    return r


def probs(cr, dr):
    return [(1 - cr) * (1 - dr), cr * (1 - dr), (1 - cr) * dr, cr * dr]


def expected_hit(st, h):
    skill, mod, (b, d) = real_parts(h)
    return expected(st, skill.damage_spec, h["mod"].get("gc", "DEFAULT"), h["mod"].get("gdh", "DEFAULT"), b, d)


def check_range(exp, row):
    """row: [label, low, high, prob] x 4 of one instance. Returns a problem or None."""
    ps = probs(exp["crit"], exp["dh"])
    for k in range(4):
        lo, hi, p = row[k][1], row[k][2], row[k][3]
        if not FM.close(lo, exp["ranges"][k][0]) or not FM.close(hi, exp["ranges"][k][1]):
            return (f"damage range of '{row[k][0]}': code [{lo}, {hi}], expected low in "
                    f"{sorted(map(float, exp['ranges'][k][0]))}, high in {sorted(map(float, exp['ranges'][k][1]))}")
        if abs(float(p) - float(ps[k])) > 1e-9:
            return f"probability of '{row[k][0]}': code {p}, expected {float(ps[k])}"
    return None
