"""Scenarios: libraries, stats, rotations; running them on the real code and on the model."""
import contextlib
import dataclasses
import io
import math
import random

from . import model as M
from .env import (CASTERS, HEALERS, JOBS, NEW_JOBS, TANKS, VERSIONS, ChannelingSpec, ComboSpec, DamageBuilder,
                  DamageClass, DamageSpec, FollowUp, ForcedCritOrDH, JobResourceSettings, JobResourceSpec,
                  RotationBuilder, Skill, SkillLibrary, SkillModifier, Stats, StatusEffectSpec, TimingSpec, real_lib)
from .harness import RealCrash, call, quiet

WEAPON_DELAY = {"PLD": 2.24, "WAR": 3.36, "DRK": 2.96, "GNB": 2.8, "DRG": 2.8, "RPR": 3.2, "MNK": 2.56, "SAM": 2.64,
                "NIN": 2.56, "VPR": 2.64, "BRD": 3.04, "MCH": 2.64, "DNC": 3.12, "BLM": 3.28, "SMN": 3.12,
                "RDM": 3.44, "PCT": 2.96, "WHM": 3.44, "SCH": 3.12, "AST": 3.2, "SGE": 2.8}


# ---------------------------------------------------------------- player
def trait_haste(job, version, level):
    if job == "MNK":
        return 0.2
    if job == "NIN" and level == 100 and float(version) >= 7.0:
        return 0.15
    return 0


def rand_stats(rng, job, version, level, delay=True):
    hi = 4200 if level == 100 else 3000
    lo = 420 if level == 100 else 400
    st = dict(wd=rng.randint(100, 150), main_stat=rng.randint(2000, 5200), det_stat=rng.randint(lo + 20, hi),
              crit_stat=rng.randint(lo, hi), dh_stat=rng.randint(lo, hi),
              speed_stat=rng.choice([lo, lo, rng.randint(lo, 1200), rng.randint(lo, 4000)]),
              job_class=job, version=version, level=level)
    if delay or rng.random() < 0.7:
        st["weapon_delay"] = rng.choice([1.0, 2.64, 2.8, 3.0, 3.12, 3.44, 2.56, 3.36, 2.01, 2.03, round(rng.uniform(0.6, 4.5), 2)])
    if job in TANKS:
        st["tenacity"] = rng.randint(lo, 2500)
    if job in HEALERS or job in CASTERS:
        st["healer_or_caster_strength"] = rng.randint(200, 500)
    st["num_roles_in_party"] = rng.choice([5, 5, 5, 4, 3, 2, 1, 0])
    return st


def player_of(st):
    tr = trait_haste(st["job_class"], st["version"], st["level"])
    return M.Player(st["speed_stat"], st["version"], st["level"], tr, tr, st["weapon_delay"])


# ---------------------------------------------------------------- library introspection
def skill_names(lib, job):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        lib.print_skill_names(job)
    return [x for x in buf.getvalue().split("\n") if x]


def values(spec):
    return list(spec.values()) if isinstance(spec, dict) else [spec]


SPECS = ("damage_spec", "timing_spec", "buff_spec", "debuff_spec", "follow_up_skills", "job_resource_spec", "combo_spec")


def cond_keys(skill):
    r = []
    for f in SPECS:
        s = getattr(skill, f)
        if isinstance(s, dict):
            r += [M.canon(k) for k in s]
    return [k for k in dict.fromkeys(r) if k]


def all_follow_ups(skill):
    return [fu for v in values(skill.follow_up_skills) for fu in v]


def uses_resources(skill):
    return any(len(v) for v in values(skill.job_resource_spec)) or any(
        any(len(v) for v in values(fu.skill.job_resource_spec)) for fu in all_follow_ups(skill))


def self_buff(skill):
    if any(v is not None for v in values(skill.buff_spec)):
        return True
    return any(any(v is not None for v in values(fu.skill.buff_spec)) and not fu.primary_target_only
               for fu in all_follow_ups(skill))


_info = {}


class JobInfo:
    """Cached facts used to steer generation for a job of a library."""

    def __init__(self, lib, job):
        self.names = skill_names(lib, job)
        self.skills = {n: lib.get_skill(n, job) for n in self.names}
        self.waits = [n for n in self.names if n.startswith("Wait ")]
        self.usable = [n for n in self.names if self.skills[n].timing_spec is not None and not n.startswith("Wait ")]
        self.gcds = [n for n in self.usable if self.skills[n].is_GCD]
        self.next = {}
        for n in self.usable:
            for v in values(self.skills[n].combo_spec):
                for cs in v:
                    for a in cs.combo_actions:
                        self.next.setdefault(a, []).append(n)
        self.party = [n for n in self.usable
                      if (self.skills[n].has_party_buff or self.skills[n].has_party_debuff)
                      and not uses_resources(self.skills[n])]
        self.dots = [n for n in self.usable if any(fu.dot_duration is not None for fu in all_follow_ups(self.skills[n]))]
        self.buffy = [n for n in self.usable if self.skills[n].has_buff or self.skills[n].has_debuff]


def job_info(libkey, lib, job):
    k = (libkey, job)
    if k not in _info:
        if len(_info) > 400:
            _info.clear()
        _info[k] = JobInfo(lib, job)
    return _info[k]


# ---------------------------------------------------------------- synthetic libraries
FEATURES = ("buffs", "debuffs", "cond", "combo", "res", "follow", "dots", "channel", "speed", "uses", "auto", "force",
            "prio", "positional")


def _pick(rng, usual, lo, hi, p=0.12):
    """one of the usual values, or now and then anything in between"""
    return rng.randint(lo, hi) if rng.random() < p else rng.choice(usual)


def _times(rng, gcd):
    if gcd:
        cast = _pick(rng, [0, 0, 0, 300, 500, 510, 1500, 1500, 2000, 2500, 2800, 3500], 1, 8000)
        return TimingSpec(
            base_cast_time=cast,
            gcd_base_recast_time=rng.choice([None, None, 2500, 2500, 1500, 2000, 2200, 3000, 3500, 6000, 8000]),
            animation_lock=_pick(rng, [650, 650, 650, 0, 100, 600, 1000], 0, 4000),
            application_delay=_pick(rng, [0, 0, 300, 499, 500, 501, 540, 760, 1200, 2100], 0, 4000),
            affected_by_speed_stat=rng.random() < 0.8,
            affected_by_haste_buffs=rng.random() < 0.8,
        )
    return TimingSpec(base_cast_time=rng.choice([0, 0, 0, 0, 1000]),
                      gcd_base_recast_time=rng.choice([None, 2500]),
                      animation_lock=_pick(rng, [650, 650, 600, 0, 10], 0, 2000),
                      application_delay=_pick(rng, [0, 0, 120, 500, 620, 1500], 0, 3000),
                      affected_by_speed_stat=rng.random() < 0.7,
                      affected_by_haste_buffs=rng.random() < 0.7)


def synth_lib(desc):
    """desc: dict(seed=, features=[...], job=, version=, level=). Deterministic."""
    rng = random.Random("synth/%s" % desc["seed"])
    feats = set(desc["features"])
    job = desc["job"]
    lib = SkillLibrary(desc["version"], desc["level"])
    lib.set_current_job_class(job)
    n = desc.get("n", 9)
    names = [f"{'G' if i % 3 != 2 else 'O'}{i}" for i in range(n)]
    buff_names = []
    force_used = {"c": False, "d": False}
    res_names = ["Gauge", "Stack"] if "res" in feats else []
    force_name = "Surge"

    def dmg():
        return DamageSpec(
            potency=_pick(rng, [0, 60, 100, 200, 220, 300, 457, 1000], 0, 3000) if rng.random() < 0.95 else 1,
            damage_class=rng.choice([DamageClass.DIRECT] * 4 + [DamageClass.PET]) if "positional" not in feats else DamageClass.DIRECT,
            guaranteed_crit=rng.choice([ForcedCritOrDH.DEFAULT] * 6 + [ForcedCritOrDH.FORCE_YES, ForcedCritOrDH.FORCE_NO]),
            guaranteed_dh=rng.choice([ForcedCritOrDH.DEFAULT] * 6 + [ForcedCritOrDH.FORCE_YES, ForcedCritOrDH.FORCE_NO]),
            single_damage_mult=rng.choice([1, 1, 1, 1.1, 1.5]),
        )

    def dotspec():
        return DamageSpec(potency=_pick(rng, [20, 60, 100], 1, 400),
                          damage_class=rng.choice([DamageClass.PHYSICAL_DOT, DamageClass.MAGICAL_DOT]))

    def effect(own, kind):
        kw = dict(duration=_pick(rng, [1000, 5000, 10000, 15000, 30000, 15010, 60000, 120000], 1, 90000))
        if rng.random() < 0.3:
            kw["max_duration"] = int(kw["duration"] * rng.choice([2, 2, 1, 1.5, 3]))
        if rng.random() < 0.2:
            kw["duration"] = math.inf
            kw.pop("max_duration", None)
        if rng.random() < 0.15:
            kw["extends_existing_duration"] = False
        if rng.random() < 0.1:
            kw["extend_only"] = True
        ch = rng.random()
        if rng.random() < 0.15:  # several at once
            for k, vs in (("damage_mult", [1.05, 1.3, 0.8]), ("crit_rate_add", [0.02, 0.1]), ("dh_rate_add", [0.03, 0.2]),
                          ("main_stat_add", [43, 262]), ("main_stat_mult", [0.75, 0.9])):
                if rng.random() < 0.5:
                    kw[k] = rng.choice(vs)
        elif ch < 0.35:
            kw["damage_mult"] = rng.choice([1.05, 1.1, 1.2, 0.75])
        elif ch < 0.5:
            kw["crit_rate_add"] = rng.choice([0.02, 0.1, 0.2])
        elif ch < 0.65:
            kw["dh_rate_add"] = rng.choice([0.03, 0.2])
        elif ch < 0.75:
            kw["main_stat_add"] = rng.choice([200, 300])
        elif ch < 0.8:
            kw["main_stat_mult"] = rng.choice([0.5, 0.75])
        if "speed" in feats and rng.random() < 0.5:
            x = rng.random()
            if x < 0.5:
                kw["haste_time_reduction"] = rng.choice([0.1, 0.15, 0.2, 0.25, 0.13, 0.03, 0.5])
            if x > 0.3:
                kw["auto_attack_delay_reduction"] = rng.choice([0.1, 0.15, 0.25, 0.13, 0.03, 0.5])
            if x > 0.8:
                kw["flat_cast_time_reduction"] = rng.choice([1000, 2500, math.inf])
            if x < 0.2:
                kw["flat_gcd_recast_time_reduction"] = rng.choice([500, 1000])
        if "uses" in feats and rng.random() < 0.4:
            kw["num_uses"] = rng.choice([1, 1, 2, 2, 3, 3, 5, 12])
            if rng.random() < 0.5:
                kw["max_num_uses"] = kw["num_uses"] + rng.choice([0, 1, 3])
        if rng.random() < 0.25:
            kw["skill_allowlist"] = tuple(rng.sample(names, min(len(names), rng.randint(1, 5))))
        if rng.random() < 0.2 and buff_names:
            kw["expires_status_effects"] = tuple(rng.sample(buff_names, min(len(buff_names), rng.choice([1, 1, 2, 3]))))
        if kind == "buff" and rng.random() < 0.04:
            kw["clear_all_status_effects"] = True
        if "cond" in feats and rng.random() < 0.5:
            kw["add_to_skill_modifier_condition"] = True
        return StatusEffectSpec(**kw)

    conds_pool = ["Cond A", "Cond B", "Cond A, Cond B"]
    if "combo" in feats:
        conds_pool += ["No Combo", "Cond A, No Combo"]
    if "res" in feats:
        conds_pool += ["1 Gauge", "2 Gauge", "Stack", "2 Gauge, Stack", "3 Gauge", "5 Gauge", "20 Gauge"]

    def maybe_cond(make, p, none_ok=False):
        if "cond" not in feats or rng.random() > p:
            return make()
        d = {"": make()}
        pool = conds_pool + [b for b in buff_names]
        for k in rng.sample(pool, min(len(pool), rng.randint(1, 3))):
            d[k] = None if (none_ok and rng.random() < 0.3) else make()
        if none_ok and rng.random() < 0.15:
            d[""] = None
        return d

    lib_skills = []
    pending = list(names)
    for i, name in enumerate(pending):
        gcd = name[0] == "G"
        kw = dict(name=name, is_GCD=gcd)
        kw["timing_spec"] = maybe_cond(lambda: _times(rng, gcd), 0.3)
        if rng.random() < (0.85 if gcd else 0.5):
            kw["damage_spec"] = maybe_cond(dmg, 0.4, none_ok=True)
        if "positional" in feats and gcd and rng.random() < 0.6:
            base = rng.choice([200, 260, 300, 340])
            kw["damage_spec"] = {"": DamageSpec(potency=base + 160), "No Positional": DamageSpec(potency=base + 100),
                                 "No Combo": DamageSpec(potency=base + 60), "No Combo, No Positional": DamageSpec(potency=base)}
            if rng.random() < 0.4:
                kw["damage_spec"]["Cond A"] = DamageSpec(potency=base + 260)
                kw["damage_spec"]["Cond A, No Positional"] = DamageSpec(potency=base + 200)
                kw["damage_spec"]["Cond A, No Combo"] = DamageSpec(potency=base + 160)
                kw["damage_spec"]["Cond A, No Combo, No Positional"] = DamageSpec(potency=base + 100)
                if rng.random() < 0.5:
                    kw["ignored_conditions_for_bonus_potency"] = ("Cond A",)
        if "buffs" in feats and rng.random() < 0.4:
            kw["buff_spec"] = maybe_cond(lambda: effect(name, "buff"), 0.3, none_ok=True)
            buff_names.append(name)
        if "debuffs" in feats and rng.random() < 0.3:
            kw["debuff_spec"] = maybe_cond(lambda: effect(name, "debuff"), 0.3, none_ok=True)
            if name not in buff_names:
                buff_names.append(name)
        if buff_names and rng.random() < 0.25:
            kw["status_effect_denylist"] = tuple(rng.sample(buff_names, min(len(buff_names), rng.choice([1, 1, 2, 3]))))
        if "combo" in feats:
            if rng.random() < 0.75:
                g = rng.choice([0, 0, 1, 2])
                prev = tuple(rng.sample(names, rng.choice([0, 1, 1, 2, 3])))
                cs = (ComboSpec(combo_actions=prev, combo_group=g, combo_auto_succeed=rng.random() < 0.1),)
                if rng.random() < 0.2:
                    cs = cs + (ComboSpec(combo_actions=tuple(rng.sample(names, 2)), combo_group=(g + 1) % 3),)
                if rng.random() < 0.1:
                    cs = (ComboSpec(break_all_combos_only=True),) + (cs if rng.random() < 0.5 else ())
                if "cond" in feats and rng.random() < 0.2:
                    cs = {"": cs, "Cond A": (ComboSpec(combo_group=g),)}
                kw["combo_spec"] = cs
        if "res" in feats and rng.random() < 0.6:
            def rs():
                r = []
                for _ in range(rng.randint(1, 2)):
                    if rng.random() < 0.07:
                        r.append(JobResourceSpec(clear_all_resources_only=True))
                    else:
                        x = dict(name=rng.choice(res_names), change=rng.choice([1, 1, 2, 3, -1, -2, -math.inf, 5, 20, -5, -20]))
                        if rng.random() < 0.3:
                            x["duration"] = _pick(rng, [3000, 8000, 15000, 60000], 1, 40000)
                        if rng.random() < 0.5:
                            x["refreshes_duration_of_last_gained"] = True
                        r.append(JobResourceSpec(**x))
                return tuple(r)
            kw["job_resource_spec"] = maybe_cond(rs, 0.3)
            kw["job_resources_snapshot"] = rng.random() < 0.7
        fus = []
        if "follow" in feats and rng.random() < 0.5:
            def fu(k):
                fkw = dict(name=f"{name}f{k}")
                if rng.random() < 0.7:
                    fkw["damage_spec"] = dmg()
                if "buffs" in feats and rng.random() < 0.25:
                    fkw["buff_spec"] = effect(fkw["name"], "buff")
                if "debuffs" in feats and rng.random() < 0.25:
                    fkw["debuff_spec"] = effect(fkw["name"], "debuff")
                if "res" in feats and rng.random() < 0.25:
                    fkw["job_resource_spec"] = (JobResourceSpec(name=rng.choice(res_names), change=rng.choice([1, 2, -1])),)
                if rng.random() < 0.2 and buff_names:
                    fkw["status_effect_denylist"] = (rng.choice(buff_names),)
                prim = rng.random() < 0.6 or "buff_spec" in fkw
                return FollowUp(skill=Skill(**fkw), delay_after_parent_application=_pick(rng, [0, 0, 90, 500, 1200, 5300, 20000], 1, 9000),
                                snapshot_buffs_with_parent=rng.random() < 0.6,
                                snapshot_debuffs_with_parent=rng.random() < 0.6, primary_target_only=prim)
            fus += [fu(k) for k in range(rng.choice([1, 1, 2, 2, 3, 3, 5]))]
        if "dots" in feats and rng.random() < 0.5:
            dn = rng.choice([f"{name}dot", "Shared (dot)"]) if rng.random() < 0.4 else f"{name}dot"
            if dn == "Shared (dot)" and rng.random() < 0.5:
                ds = DamageSpec(potency=50, damage_class=DamageClass.MAGICAL_DOT)
                dd = 15000
                d = FollowUp(skill=Skill(name=dn, damage_spec=ds), delay_after_parent_application=0, dot_duration=dd,
                             snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=True)
            else:
                d = FollowUp(skill=Skill(name=dn, damage_spec=dotspec(),
                                         status_effect_denylist=(rng.choice(buff_names),) if buff_names and rng.random() < 0.2 else ()),
                             delay_after_parent_application=0,
                             dot_duration=_pick(rng, [3000, 5000, 9000, 12000, 15000, 30000, 45000, 60000, 2999, 6001], 1, 40000),
                             snapshot_buffs_with_parent=rng.random() < 0.7,
                             snapshot_debuffs_with_parent=rng.random() < 0.7,
                             primary_target_only=rng.random() < 0.5)
            fus.insert(rng.randint(0, len(fus)), d)
        if fus:
            fus = tuple(fus)
            if "cond" in feats and rng.random() < 0.3:
                alt = fus[:1] if rng.random() < 0.5 else ()
                if rng.random() < 0.4:  # the same follow-ups, the DoTs lasting differently
                    alt = tuple(dataclasses.replace(x, dot_duration=rng.choice([0, 3000, 7000, 21000])) if x.dot_duration is not None else x
                                for x in fus)
                kw["follow_up_skills"] = {"": fus, rng.choice(conds_pool): alt}
            else:
                kw["follow_up_skills"] = fus
        if "channel" in feats and rng.random() < 0.3:
            kw["channeling_spec"] = ChannelingSpec(
                duration=_pick(rng, [3000, 5000, 10000], 100, 30000),
                skill_allowlist=tuple(rng.sample([x for x in names if x != name], rng.choice([0, 2, 4]))),
                num_uses=rng.choice([math.inf, math.inf, 1, 2, 3, 6]))
        lib_skills.append(kw)
    if "force" in feats:
        kw = dict(name=force_name, is_GCD=False, timing_spec=_times(rng, False),
                  buff_spec=StatusEffectSpec(duration=10000, num_uses=rng.choice([1, 2, math.inf]),
                                             guaranteed_crit=rng.choice([ForcedCritOrDH.FORCE_YES, ForcedCritOrDH.FORCE_NO]),
                                             guaranteed_dh=rng.choice([ForcedCritOrDH.DEFAULT, ForcedCritOrDH.FORCE_YES])))
        lib_skills.append(kw)
    for kw in lib_skills:
        lib.add_skill(Skill(**kw))
    if "channel" in feats:
        lib.add_skill(Skill(name="Wait 1.00s", is_GCD=False,
                            timing_spec=TimingSpec(base_cast_time=0, animation_lock=1000, application_delay=0)))
    ranged = rng.random() < 0.3
    lib.add_skill(Skill(name="Shot" if ranged else "Auto", is_GCD=False,
                        timing_spec=TimingSpec(base_cast_time=0, animation_lock=0,
                                               application_delay=rng.choice([532, 0, 100, 1000]),
                                               affected_by_speed_stat=False, affected_by_haste_buffs=False),
                        damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO, trait_damage_mult_override=1),
                        status_effect_denylist=(rng.choice(buff_names),) if buff_names and rng.random() < 0.2 else ()))
    for r in res_names:
        lib.add_resource(r, JobResourceSettings(
            max_value=rng.choice([1, 2, 3, 3, 5, 5, 20, 100]),
            skill_allowlist=tuple(rng.sample(names, min(len(names), rng.randint(4, 9)))),
            expiry_from_last_gain=rng.choice([math.inf, math.inf, 5000, 15000, 45000]),
            add_number_to_conditional=(r == "Gauge")))
    if "combo" in feats:
        for g in range(3):
            if rng.random() < 0.5:
                lib.add_combo_breaker(g, tuple(x for x in range(3) if x != g and rng.random() < 0.6))
    if "prio" in feats and len(buff_names) >= 2:
        lib.set_status_effect_priority(tuple(rng.sample(buff_names, rng.randint(2, min(6, len(buff_names))))))
    return lib


_synth = {}


def get_lib(desc):
    if desc["kind"] == "real":
        return real_lib(desc["version"], desc["level"])
    k = repr(sorted(desc.items(), key=lambda x: x[0]))
    if k not in _synth:
        if len(_synth) > 60:
            _synth.clear()
        _synth[k] = synth_lib(desc)
    return _synth[k]


def libkey(desc):
    return repr(sorted(desc.items(), key=lambda x: x[0]))


# ---------------------------------------------------------------- scenarios
class Opts:
    """Knobs of the scenario generator; every check chooses its own."""

    def __init__(self, **kw):
        self.features = FEATURES
        self.synth = 0.5  # probability of a synthetic library
        self.length = (3, 30)
        self.mode = "mix"  # seq | timed | mix
        self.autos = 0.3
        self.trailing = 0.3
        self.snap = 0.25
        self.fight_start = 0.3
        self.downtime = 0.25
        self.multi = 0.2
        self.party = 0.1
        self.condp = 0.3
        self.modp = 0.15
        self.bonus = 0.1
        self.jobs = None
        self.versions = VERSIONS
        self.prefer = None  # attr of JobInfo to draw from with p=.35
        self.span = 60000
        self.tie = 0.05
        self.waits = 0.0
        self.__dict__.update(kw)


T_GRID = 10


def _time(ms):
    return ms / 1000


def gen_scenario(rng, o):
    if rng.random() < o.synth:
        feats = [f for f in o.features if rng.random() < 0.75]
        must = getattr(o, "must", ())
        feats = sorted(set(feats) | set(must))
        version, level = rng.choice([("7.0", 100), ("7.1", 100), ("6.55", 90), ("7.05", 90)])
        job = rng.choice(["SAM", "SAM", "MNK", "NIN", "BLM", "PLD", "WHM", "MCH"])
        lib_desc = dict(kind="synth", seed=rng.randint(0, 10**6), features=feats, job=job, version=version, level=level,
                        n=rng.choice([5, 8, 10, 12, 12, 18]))
    else:
        version, level = rng.choice(o.versions)
        jobs = [j for j in (o.jobs or JOBS) if not (j in NEW_JOBS and level == 90 and version == "6.55")]
        lib_desc = dict(kind="real", version=version, level=level)
        lib = get_lib(lib_desc)
        jobs = [j for j in jobs if lib.has_job_class(j)]
        job = rng.choice(jobs)
    lib = get_lib(lib_desc)
    st = rand_stats(rng, job, version, level)
    info = job_info(libkey(lib_desc), lib, job)
    n = rng.randint(*o.length)
    if rng.random() < 0.01:
        n += rng.randint(30, 90)
    mode = o.mode if o.mode != "mix" else rng.choice(["seq", "timed", "timed", "both"])
    default_target = rng.choice(["Default Target", "Default Target", "Default Target", "Boss"])
    cfg = dict(snap_dots=None, autos=rng.random() < o.autos, trailing=rng.random() < o.trailing,
               fight_start=None, downtime=None, default_target=default_target)
    if rng.random() < o.snap:
        cfg["snap_dots"] = rng.choice([0, 0.5, 1, 1.25, 2.0, 0.01, 2.99, 3.0, -1.5, 2.007, 1.009, 4.2, 31.5, round(rng.uniform(0, 3), 3)])
    if rng.random() < o.fight_start:
        cfg["fight_start"] = rng.choice([0, 0, 0, 1500, 5000, -2000, 12345, 31000] + ([600000] if mode != "both" else []))
    tgts = [default_target, "Add 1", "Add 2", "Add 3"]
    if rng.random() < 0.08:
        tgts += [f"Add {i}" for i in range(4, 9)] + ["boss", "Target 2"]
    presses = []
    t = rng.choice([0, 0, 0, 10, 500, 3000, -3000, 2010, 61000, rng.randint(0, 9999), rng.randint(0, 9999)] + ([1200000] if mode == "timed" else [])) if mode != "seq" else 0
    last = None
    used_t = set()
    for i in range(n):
        pr = dict()
        names = info.usable
        pjob = None
        if lib_desc["kind"] == "real" and rng.random() < o.party:
            oj = rng.choice([j for j in JOBS if lib.has_job_class(j)])
            oi = job_info(libkey(lib_desc), lib, oj)
            if oi.party and oj != job:
                pjob = oj
                pr["skill"] = rng.choice(oi.party)
                sk = oi.skills[pr["skill"]]
        if pjob is None:
            x = rng.random()
            cand = names
            if o.prefer and x < 0.35 and getattr(info, o.prefer):
                cand = getattr(info, o.prefer)
            elif x < 0.6 and last in info.next:
                cand = info.next[last]
            elif x < 0.75 and info.gcds:
                cand = info.gcds
            if info.waits and rng.random() < 0.04:
                cand = info.waits
            pr["skill"] = rng.choice(cand)
            sk = info.skills[pr["skill"]]
            if cand is not info.waits:
                last = pr["skill"]
        if sk.name in ("Auto", "Shot") and lib_desc["kind"] == "real" and rng.random() < 0.9:
            continue
        pr["job"] = pjob
        mod = None
        keys = cond_keys(sk)
        if rng.random() < o.condp:
            mod = {}
            pool = keys
            if lib_desc["kind"] == "synth":
                pool = keys + [frozenset(["Cond A"]), frozenset(["Cond B"])]
            if pool:
                mod["cond"] = ", ".join(sorted(rng.choice(pool)))
        if rng.random() < o.modp:
            mod = mod or {}
            k = rng.choice(["gc", "gdh", "force", "force", "nocast", "nodelay", "nocast"])
            mod[k] = rng.choice(["FORCE_YES", "FORCE_NO"]) if k in ("gc", "gdh") else True
        if any("No Positional" in k for k in keys) and rng.random() < max(o.bonus, 0.0):
            mod = mod or {}
            mod["bonus"] = rng.choice([0, 0] + bonus_values(sk))
        pr["mod"] = mod
        pr["targets"] = None
        x = rng.random()
        if x < o.multi and not self_buff(sk):
            k = min(rng.choice([2, 2, 3, 3, 4, 4, 9]), len(tgts))
            pr["targets"] = ", ".join(rng.sample(tgts, k))
        elif x < o.multi * 1.7:
            pr["targets"] = rng.choice(tgts)
        if mode == "seq" or (mode == "both" and rng.random() < 0.5):
            pr["t"] = None
            if rng.random() < 0.05:
                pr["times"] = rng.choice([2, 2, 3, 0] * 4 + [26])
        else:
            step = rng.choice([0, 10, 300, 600, 650, 700, 1000, 1250, 2000, 2400, 2500, 2500, 3000, rng.randint(1, 700) * 10])
            if rng.random() < 0.02:
                step = rng.choice([30000, 29990, 30010, 15000, 61000, 61000, 121000])
            if step == 0 and rng.random() > o.tie:
                step = 10
            t += step
            pr["t"] = t
        presses.append(pr)
    if rng.random() < 0.15:
        timed_idx = [i for i, p in enumerate(presses) if p["t"] is not None]
        vals = [presses[i] for i in timed_idx]
        rng.shuffle(vals)
        for i, v in zip(timed_idx, vals):
            presses[i] = v
    if rng.random() < o.downtime:
        end = max([p["t"] or 0 for p in presses] + [len(presses) * 2000, 5000]) / 1000

        def wins():
            r = []
            a = rng.choice([0, round(rng.random() * end, 2)])
            for _ in range(rng.randint(1, 3)):
                b = round(a + rng.choice([0.5, 1, 3, 5, 10, rng.random() * 6, rng.random() * 6, 31, 61, 125]), 2)
                w = [a, b]
                if rng.random() < 0.4:
                    w.append(rng.choice(["AUTO", "AUTO", "DIRECT", "PHYSICAL_DOT", "MAGICAL_DOT", "PET"]))
                r.append(w)
                a = round(b + rng.random() * end / 3 + 0.01, 2)
            return r
        if rng.random() < 0.5:
            cfg["downtime"] = wins()
        else:
            cfg["downtime"] = {tg: wins() for tg in rng.sample(tgts, rng.randint(1, 3))}
    return dict(lib=lib_desc, job=job, stats=st, rb=cfg, presses=presses)


def bonus_values(sk):
    """Bonus percentages that some reading of the skill's potencies produces."""
    d = sk.damage_spec if isinstance(sk.damage_spec, dict) else None
    if d is None:
        d = {}
        if isinstance(sk.follow_up_skills, dict):
            for k, fus in sk.follow_up_skills.items():
                for fu in fus:
                    if fu.skill.damage_spec is not None and not isinstance(fu.skill.damage_spec, dict):
                        d[k] = fu.skill.damage_spec
                        break
    r = []
    ps = [v.potency for v in d.values() if v is not None and v.potency]
    for a in ps:
        for b in ps:
            if a > b:
                r.append(int(100 * (a - b) / a))
    mins = [v.use_min_potency for v in d.values() if v is not None and v.use_min_potency]
    for a in ps:
        for b in mins:
            r.append(int(100 * (a - b) / a))
    return sorted(set(r)) or [10]


# ---------------------------------------------------------------- building
def real_mod(m):
    if m is None:
        return None
    kw = {}
    if m.get("cond"):
        kw["with_condition"] = m["cond"]
    if m.get("gc"):
        kw["guaranteed_crit"] = ForcedCritOrDH[m["gc"]]
    if m.get("gdh"):
        kw["guaranteed_dh"] = ForcedCritOrDH[m["gdh"]]
    if m.get("force"):
        kw["force_combo"] = True
    if m.get("nocast"):
        kw["ignore_cast_times"] = True
    if m.get("nodelay"):
        kw["ignore_application_delay"] = True
    if m.get("bonus") is not None:
        kw["bonus_percent"] = m["bonus"]
    return SkillModifier(**kw)


def real_downtime(d):
    def conv(ws):
        return tuple(tuple([w[0], w[1]] + [DamageClass[x] for x in w[2:]]) for w in ws)
    if d is None:
        return ()
    if isinstance(d, dict):
        return {k: conv(v) for k, v in d.items()}
    return conv(d)


def make_rb(sc, lib, stats, downtime=None):
    c = sc["rb"]
    kw = dict(snap_dots_to_server_tick_starting_at=c["snap_dots"], enable_autos=c["autos"],
              ignore_trailing_dots=c["trailing"], fight_start_time=c["fight_start"],
              default_target=c["default_target"])
    if c["downtime"] is not None:
        kw["downtime_windows"] = real_downtime(c["downtime"]) if downtime is None else downtime
    return RotationBuilder(stats, lib, **kw)


def add_presses(rb, sc):
    for p in sc["presses"]:
        if p["t"] is None:
            kw = {} if p.get("times") is None else dict(num_times=p["times"])
            rb.add_next(p["skill"], skill_modifier=real_mod(p["mod"]), job_class=p["job"], targets=p["targets"], **kw)
        else:
            rb.add(_time(p["t"]), p["skill"], skill_modifier=real_mod(p["mod"]), job_class=p["job"], targets=p["targets"])


class Real:
    pass


def run_real(sc, instances=True):
    r = Real()
    r.lib = get_lib(sc["lib"])

    def go():
        r.stats = Stats(**sc["stats"])
        r.rb = make_rb(sc, r.lib, r.stats)
        add_presses(r.rb, sc)
        q = r.rb.get_skill_timing()
        r.events = q.get_q()
        r.presses = r.rb.get_button_press_timing()
        r.db = DamageBuilder(r.stats, r.lib)
        r.inst = r.db.get_damage_instances(q) if instances else None
    call(go)
    return r


def model_mod(sc, p, skill):
    m = p["mod"]
    if m is None:
        if p["job"] is not None and p["job"] != sc["job"]:
            return M.Mod(M.canon(skill.off_class_default_condition))
        return M.Mod()
    return M.Mod(M.canon(m.get("cond", "")), m.get("gc") or "DEFAULT", m.get("gdh") or "DEFAULT", bool(m.get("force")),
                 bool(m.get("nocast")), bool(m.get("nodelay")), m.get("bonus"))


def model_presses(sc, lib):
    seq, timed = [], []
    for p in sc["presses"]:
        job = p["job"] or sc["job"]
        sk = lib.get_skill(p["skill"], job)
        tg = p["targets"] if p["targets"] is not None else sc["rb"]["default_target"]
        tg = tuple(x.strip() for x in tg.split(","))
        pr = M.Press(p["t"], sk, model_mod(sc, p, sk), "" if job == sc["job"] else job, tg)
        if p["t"] is None:
            seq += [pr] * p.get("times", 1)
        else:
            timed.append(pr)
    return seq, timed


def model_config(sc):
    c = sc["rb"]
    return M.Config(c["snap_dots"], c["autos"], c["trailing"], c["fight_start"], c["downtime"] or (), c["default_target"])


def run_model(sc, instances=True):
    """Returns (timeline, instances or None). Raises Ambiguous/NoSpec/ForceConflict for unspecified cases."""
    lib = get_lib(sc["lib"])
    view = M.LibView(lib, sc["job"])
    seq, timed = model_presses(sc, lib)
    tl = M.Timeline(view, player_of(sc["stats"]), model_config(sc), seq, timed)
    if not instances:
        return tl, None
    a = M.damage_instances(view, tl.final)
    ka = sorted(repr(inst_key_model(x)) for x in a)
    for ties in ((-1, 1), (1, -1), (-1, -1)):
        b = M.damage_instances(view, tl.final, ties=ties)
        if ka != sorted(repr(inst_key_model(x)) for x in b):
            raise M.Ambiguous("order of simultaneous events")
    return tl, a


# ---------------------------------------------------------------- comparison keys
def rnd(x):
    if x is None or isinstance(x, str) or (isinstance(x, float) and math.isinf(x)):
        return x
    r = round(float(x), 4)
    return r + 0.0 if r else 0.0


def ev_key_real(e):
    prim, sec = e.event_times.primary, e.event_times.secondary
    if sec is None:
        return (rnd(prim), rnd(prim), e.skill.name, tuple(sorted(e.skill_modifier.with_condition)), (True, True), tuple(e.targets))
    return (rnd(prim), rnd(sec), e.skill.name, tuple(sorted(e.skill_modifier.with_condition)),
            tuple(bool(x) for x in e.snapshot_status), tuple(e.targets))


def ev_key_model(e):
    return (rnd(e.snap), rnd(e.app), e.skill.name, tuple(sorted(e.mod.cond)),
            (True, True) if e.snap == e.app else tuple(bool(x) for x in e.snaps), tuple(e.targets))


EFF = ("crit_rate_add", "dh_rate_add", "damage_mult", "main_stat_add", "main_stat_mult")


def eff_real(s):
    return tuple(round(float(getattr(s, f)), 9) + 0.0 for f in EFF) + (
        M.enum_name(s.guaranteed_crit), M.enum_name(s.guaranteed_dh), tuple(sorted(s.status_effects)))


def eff_model(s):
    if not isinstance(s, dict):
        return ("?",)
    return tuple(round(float(s[f]), 9) + 0.0 for f in EFF) + (s["guaranteed_crit"], s["guaranteed_dh"], tuple(sorted(s["names"])))


def inst_key_real(x):
    t, skill, mod, (b, d), _eid, target = x[:6]
    return (rnd(t), skill.name, tuple(sorted(mod.with_condition)), target, eff_real(b), eff_real(d))


def inst_key_model(x):
    return (rnd(x["t"]), x["name"], tuple(sorted(x["cond"])), x["target"], eff_model(x["buffs"]), eff_model(x["debuffs"]))


def press_key_real(p):
    return (rnd(p[0]), p[1], p[2], tuple(sorted(M.canon(p[3]))))


def press_key_model(p):
    return (rnd(p[0]), p[1], p[2], tuple(sorted(p[3])))


def diff(a, b):
    """multiset difference, (only in a, only in b)."""
    from collections import Counter
    ca, cb = Counter(a), Counter(b)
    return list((ca - cb).elements()), list((cb - ca).elements())


SKIP = (M.Ambiguous, M.NoSpec, M.ForceConflict)
