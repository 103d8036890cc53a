"""What is declared is what counts: a field given to a specification reads back as given, one left out is neutral.

The reference model reads the specification objects the code made. This monitor closes the gap between them and what the
declaration said."""
import math
import random

from .harness import RealCrash, call
from .env import DamageClass, ForcedCritOrDH, Skill
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec

INF = math.inf
FORCE = [ForcedCritOrDH.FORCE_YES, ForcedCritOrDH.FORCE_NO, ForcedCritOrDH.DEFAULT]
BOOL = [True, False]
MS = [0, 1, 10, 640, 1500, 2500, 15000, 60000, 3600000]
MULT = [0.5, 0.95, 1, 1.05, 1.1, 1.5, 2]
RATE = [0, 0.05, 0.1, 0.2, 1]
NAMES = [(), ("A",), ("A", "B"), ("Fire III", "Fire IV", "x, y")]
REQUIRED = object()


class Like:
    """neutral value that depends on another field"""

    def __init__(self, field):
        self.field = field


D = ForcedCritOrDH.DEFAULT
FIELDS = {
    TimingSpec: dict(base_cast_time=(REQUIRED, MS), gcd_base_recast_time=(2500, MS), animation_lock=(650, MS), application_delay=(0, MS),
                     affected_by_speed_stat=(True, BOOL), affected_by_haste_buffs=(True, BOOL)),
    DamageSpec: dict(potency=(None, [0, 1, 100, 1240, 0.5]), damage_class=(DamageClass.DIRECT, list(DamageClass)), guaranteed_crit=(D, FORCE),
                     guaranteed_dh=(D, FORCE), trait_damage_mult_override=(None, MULT), pet_job_mod_override=(None, [100, 115]),
                     pet_scalar=(1, MULT), use_min_potency=(None, [100, 240]), single_damage_mult=(1, MULT)),
    StatusEffectSpec: dict(duration=(0, MS + [INF]), max_duration=(Like("duration"), MS + [INF]), num_uses=(INF, [1, 2, 5]),
                           max_num_uses=(Like("num_uses"), [1, 2, 5, INF]), crit_rate_add=(0, RATE), dh_rate_add=(0, RATE), damage_mult=(1, MULT),
                           main_stat_add=(0, [0, 100, 261.5, -50]), main_stat_mult=(1, MULT), auto_attack_delay_reduction=(0, RATE),
                           haste_time_reduction=(0, RATE), flat_cast_time_reduction=(0, MS + [INF]), flat_gcd_recast_time_reduction=(0, MS),
                           extends_existing_duration=(True, BOOL), expires_status_effects=((), NAMES), skill_allowlist=(None, NAMES),
                           guaranteed_crit=(D, FORCE), guaranteed_dh=(D, FORCE), add_to_skill_modifier_condition=(False, BOOL),
                           extend_only=(False, BOOL), is_party_effect=(False, BOOL), clear_all_status_effects=(False, BOOL)),
    FollowUp: dict(skill=(REQUIRED, [Skill(name="A"), Skill(name="B", damage_spec=DamageSpec(potency=10))]),
                   delay_after_parent_application=(REQUIRED, MS), snapshot_buffs_with_parent=(True, BOOL),
                   snapshot_debuffs_with_parent=(True, BOOL), dot_duration=(None, MS[1:]), primary_target_only=(True, BOOL)),
    ComboSpec: dict(combo_actions=((), NAMES), combo_group=(0, [0, 1, 2, 7]), combo_auto_succeed=(False, BOOL), break_all_combos_only=(False, BOOL)),
    JobResourceSpec: dict(name=("", ["Gauge", "Astral Fire"]), change=(0, [1, 2, -1, 50, -INF]), duration=(INF, MS),
                          refreshes_duration_of_last_gained=(False, BOOL), clear_all_resources_only=(False, BOOL)),
    JobResourceSettings: dict(max_value=(0, [1, 3, 100, INF]), skill_allowlist=((), NAMES), expiry_from_last_gain=(INF, MS),
                              add_number_to_conditional=(True, BOOL)),
    ChannelingSpec: dict(duration=(0, MS + [INF]), skill_allowlist=((), NAMES), num_uses=(INF, [0, 1, 2])),
}


def _one(cls, kw):
    o = call(cls, **kw)
    for f, (neutral, _) in FIELDS[cls].items():
        want = kw[f] if f in kw else neutral
        if isinstance(want, Like):
            want = kw.get(want.field, FIELDS[cls][want.field][0])
        got = getattr(o, f)
        if type(want) is bool or want is None:
            same = got is want or got == want
        else:
            same = got == want
        if not same:
            return f"{cls.__name__}({', '.join(f'{k}={v}' for k, v in kw.items())}): {f} counts as {got}, declared {want}"
    return None


def declarations(ctx, *classes):
    rng = random.Random(f"decl/{ctx.seed}")
    for cls in classes:
        fields = FIELDS[cls]
        req = [f for f, (n, _) in fields.items() if n is REQUIRED]
        opt = [f for f in fields if f not in req]
        cases = [[f] for f in opt] + [[]] + [rng.sample(opt, rng.randint(0, len(opt))) for _ in range(60)]
        for names in cases:
            kw = {f: rng.choice(fields[f][1]) for f in req + names}
            ctx.count("declarations read back")
            try:
                p = _one(cls, kw)
            except RealCrash as e:
                p = f"crash: {cls.__name__}: {e}"
            if p:
                ctx.violation(p)
                return
    ctx.need("declarations read back", 60)
