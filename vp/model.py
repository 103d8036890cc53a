"""Reference model of timeline building and damage-instance resolution.

Written from the behaviour described in properties.jsonl.  It shares no code
with /repo: it only *reads* the declarative skill data (the public fields of
Skill/TimingSpec/StatusEffectSpec/... objects) and recomputes what the timeline
and the damage instances must be.  Everything is a plain dict/list so that the
comparison does not depend on how the implementation represents its state.
"""
import heapq
import math
from fractions import Fraction

INF = math.inf
TICK = 3000
COMBO_MS = 30000
PRECAST = 500
GCD = 2500
MIN_GCD = 1500
STAGGER = 135
DEFAULT_TARGET = "Default Target"

SPEED = {  # level -> (speed const, level sub, level div)
    90: (130, 400, 1900),
    100: (130, 420, 2780),
}


class Ambiguous(Exception):
    """The property does not pin the result for this case (ties, float edges)."""


class NoSpec(Exception):
    """No entry of a conditional spec applies (the implementation raises KeyError)."""


# --------------------------------------------------------------- conditions
def canon(cond):
    """'a, b' -> {'a','b'}; also accepts an iterable of condition names."""
    if cond is None:
        return frozenset()
    if isinstance(cond, str):
        if cond == "":
            return frozenset()
        return frozenset(x.strip() for x in cond.split(","))
    return frozenset(cond)


def resolve(spec, cond, last_wins=True):
    """Most specific entry of a conditional spec: the largest key contained in cond."""
    if not isinstance(spec, dict):
        return spec
    best, best_n, tie = None, -1, False
    for k, v in spec.items():
        ks = canon(k)
        if ks <= cond:
            if len(ks) > best_n:
                best, best_n, tie = (v,), len(ks), False
            elif len(ks) == best_n:
                tie = True
                if last_wins:
                    best = (v,)
    if best is None:
        raise NoSpec()
    return best[0]


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def trunc10(*factors):
    """floor(product to whole 10 ms), in exact decimal arithmetic."""
    e = Fraction(1)
    for f in factors:
        e *= frac(f)
    q = e / 10
    return 10 * (q.numerator // q.denominator)


def speed_time(base, speed, version, level):
    if version == "test":
        level = 90
    c, sub, div = SPEED[level]
    # ceil(c*(sub-speed)/div)
    k = -((-(c * (sub - speed))) // div)
    return 10 * ((base * (1000 + k)) // 10000)


# --------------------------------------------------------------- status effects
ZERO_EFF = dict(
    crit_rate_add=0.0, dh_rate_add=0.0, damage_mult=1.0, main_stat_add=0.0,
    main_stat_mult=1.0, auto_attack_delay_mult=1.0, haste_time_mult=1.0,
    flat_cast_time_reduction=0, flat_gcd_recast_time_reduction=0,
    guaranteed_crit="DEFAULT", guaranteed_dh="DEFAULT", names=(),
)


def enum_name(x):
    return getattr(x, "name", str(x))


class ForceConflict(Exception):
    pass


class Effects:
    """Buffs (global) and debuffs (per target)."""

    def __init__(self, priority=()):
        self.buffs = {}
        self.debuffs = {}
        self.priority = tuple(priority)

    def deb(self, target):
        return self.debuffs.setdefault(target, {})

    def expire(self, t):
        for m in [self.buffs] + list(self.debuffs.values()):
            for k in list(m):
                if t > m[k][1] or m[k][2] == 0:
                    del m[k]

    @staticmethod
    def _apply(m, t, name, sp):
        if name not in m:
            if sp.extend_only:
                return
            m[name] = [t, t + sp.duration, sp.num_uses, sp]
            return
        start, end, uses, _ = m[name]
        left = max(end - t, 0)
        dur = min(sp.max_duration, left + sp.duration) if sp.extends_existing_duration else left
        m[name] = [start, t + dur, min(uses + sp.num_uses, sp.max_num_uses), sp]

    def apply(self, t, skill, cond, targets):
        b = resolve(skill.buff_spec, cond)
        d = resolve(skill.debuff_spec, cond)
        if b is not None:
            if b.clear_all_status_effects:
                self.buffs = {}
            self._apply(self.buffs, t, skill.name, b)
            for n in b.expires_status_effects:
                self._end(n, t, DEFAULT_TARGET)
        if d is not None:
            for tg in targets:
                self._apply(self.deb(tg), t, skill.name, d)
                for n in d.expires_status_effects:
                    self._end(n, t, tg)

    def _end(self, name, t, target):
        for m in (self.buffs, self.deb(target)):
            if name in m:
                m[name][1] = t

    def compile(self, m, t, skill):
        names = []
        for n, (start, end, uses, sp) in m.items():
            if t < start:
                continue
            if n in skill.status_effect_denylist:
                continue
            if sp.skill_allowlist is not None and skill.name not in sp.skill_allowlist:
                continue
            names.append(n)
        # of the effects in the job's priority list only the first present one counts
        present = [p for p in self.priority if p in names]
        for p in present[1:]:
            if p != present[0]:
                names = [n for n in names if n != p]
        r = dict(ZERO_EFF)
        r["_haste"] = []
        r["_auto"] = []
        conds = []
        for n in names:
            m[n][2] -= 1
            sp = m[n][3]
            r["crit_rate_add"] += sp.crit_rate_add
            r["dh_rate_add"] += sp.dh_rate_add
            r["damage_mult"] *= sp.damage_mult
            r["main_stat_add"] += sp.main_stat_add
            r["main_stat_mult"] *= sp.main_stat_mult
            r["auto_attack_delay_mult"] *= 1 - sp.auto_attack_delay_reduction
            r["haste_time_mult"] *= 1 - sp.haste_time_reduction
            if sp.haste_time_reduction:
                r["_haste"].append(1 - frac(sp.haste_time_reduction))
            if sp.auto_attack_delay_reduction:
                r["_auto"].append(1 - frac(sp.auto_attack_delay_reduction))
            r["flat_cast_time_reduction"] += sp.flat_cast_time_reduction
            r["flat_gcd_recast_time_reduction"] += sp.flat_gcd_recast_time_reduction
            for f in ("guaranteed_crit", "guaranteed_dh"):
                v = enum_name(getattr(sp, f))
                if v != "DEFAULT":
                    if r[f] != "DEFAULT":
                        raise ForceConflict()
                    r[f] = v
            if sp.add_to_skill_modifier_condition:
                conds.append(n)
        r["names"] = tuple(sorted(names))
        return r, frozenset(x.strip() for c in conds for x in c.split(","))

    def compile_buffs(self, t, skill):
        return self.compile(self.buffs, t, skill)

    def compile_debuffs(self, t, skill, target=DEFAULT_TARGET):
        return self.compile(self.deb(target), t, skill)


# --------------------------------------------------------------- combos
class Combos:
    def __init__(self, breakers):
        self.last = {}
        self.breakers = breakers

    def use(self, t, skill, cond, force):
        ok = True
        for cs in resolve(skill.combo_spec, cond):
            if cs.break_all_combos_only:
                self.last = {}
                continue
            g = cs.combo_group
            lt, ln = self.last.get(g, (-INF, None))
            this = (
                cs.combo_auto_succeed
                or force
                or len(cs.combo_actions) == 0
                or (t <= lt + COMBO_MS and ln in cs.combo_actions)
            )
            ok = ok and this
            self.last[g] = (t, skill.name) if this else (-INF, None)
            for broken, by in self.breakers.items():
                if g in by:
                    self.last[broken] = (-INF, None)
        return frozenset() if ok else frozenset(["No Combo"])


# --------------------------------------------------------------- job resources
class Resources:
    def __init__(self, settings):
        self.settings = settings
        self.hist = {n: [] for n in settings}

    def add(self, t, skill, cond):
        for rs in resolve(skill.job_resource_spec, cond):
            if rs.clear_all_resources_only:
                for n in self.hist:
                    self.hist[n].append((t, INF, -INF, False))
                continue
            self.hist[rs.name].append((t, t + rs.duration, rs.change, rs.refreshes_duration_of_last_gained))

    def amount(self, name, t):
        cfg = self.settings[name]
        total, last = 0, None
        hist = sorted(self.hist[name], key=lambda x: x[0])
        for start, end, change, refreshes in hist:
            if last is not None and last + cfg.expiry_from_last_gain < start:
                total = 0
            if refreshes or total == 0:  # a gain on an empty gauge starts the expiry anew
                last = start
            if t < start or t > end:
                continue
            total = max(0, min(cfg.max_value, total + change))
        if last is not None and last + cfg.expiry_from_last_gain < t:
            total = 0
        return total

    def conditions(self, t, skill):
        res = set()
        for n, cfg in self.settings.items():
            if skill.name not in cfg.skill_allowlist:
                continue
            a = self.amount(n, t)
            if a > 0:
                s = f"{a} {n}" if cfg.add_number_to_conditional else n
                res.update(x.strip() for x in s.split(","))
        return frozenset(res)


# --------------------------------------------------------------- channeling
class Channel:
    def __init__(self):
        self.windows = []
        self.cur = None  # [start, spec, uses]

    def press(self, t, skill, cond):
        if "Wait" in skill.name:
            return
        cs = resolve(skill.channeling_spec, cond)
        if cs:
            if self.cur:
                self._end(t)
            self.cur = [t, cs, cs.num_uses]
            return
        if self.cur:
            if skill.name in self.cur[1].skill_allowlist:
                self.cur[2] -= 1
                if self.cur[2] > 0:
                    return
            self._end(t)

    def _end(self, t):
        start, cs, _ = self.cur
        self.windows.append((start, min(start + cs.duration, t)))
        self.cur = None

    def finish(self):
        if self.cur:
            self._end(INF)


# --------------------------------------------------------------- positionals
def positional(skill, cond, bonus_percent):
    spec = skill.damage_spec if isinstance(skill.damage_spec, dict) else None
    if spec is None and isinstance(skill.follow_up_skills, dict):
        tmp = {}
        for k, fus in skill.follow_up_skills.items():
            for fu in fus:
                if fu.skill.damage_spec is not None:
                    tmp[k] = fu.skill.damage_spec
                    break
        spec = tmp or None
    if spec is None or bonus_percent is None:
        return cond
    if not any("No Positional" in canon(k) for k in spec):
        return cond
    if bonus_percent == 0:
        return cond | {"No Positional"}
    base = cond - set(skill.ignored_conditions_for_bonus_potency)
    low = resolve(spec, base | {"No Combo", "No Positional"}).potency
    for extra in ((), ("No Positional",), ("No Combo",), ("No Combo", "No Positional")):
        s = resolve(spec, base | set(extra))
        lo = s.use_min_potency if s.use_min_potency else low
        if int(100 * (s.potency - lo) / s.potency) == bonus_percent:
            return cond | base | set(extra)
    return cond  # no match: warning only


class Mod:
    """What a SkillModifier says."""

    __slots__ = ("cond", "gc", "gdh", "force", "nocast", "nodelay", "bonus")

    def __init__(self, cond=frozenset(), gc="DEFAULT", gdh="DEFAULT", force=False, nocast=False, nodelay=False, bonus=None):
        self.cond, self.gc, self.gdh = frozenset(cond), gc, gdh
        self.force, self.nocast, self.nodelay, self.bonus = force, nocast, nodelay, bonus

    def plus(self, *conds):
        c = self.cond
        for x in conds:
            c = c | x
        return Mod(c, self.gc, self.gdh, self.force, self.nocast, self.nodelay, self.bonus)


class Press:
    __slots__ = ("t", "skill", "mod", "job", "targets", "name")

    def __init__(self, t, skill, mod, job, targets):
        self.t, self.skill, self.mod, self.job, self.targets = t, skill, mod, job, targets


class Ev:
    __slots__ = ("prio", "snap", "app", "skill", "mod", "snaps", "targets", "kind", "parent")

    def __init__(self, prio, snap, app, skill, mod, snaps, targets, kind, parent=None):
        self.prio, self.snap, self.app, self.skill, self.mod = prio, snap, app, skill, mod
        self.snaps, self.targets, self.kind, self.parent = snaps, targets, kind, parent

    def copy(self, **kw):
        e = Ev(self.prio, self.snap, self.app, self.skill, self.mod, self.snaps, self.targets, self.kind, self.parent)
        for k, v in kw.items():
            setattr(e, k, v)
        return e


class LibView:
    """What the model reads from a skill library for one job."""

    def __init__(self, lib, job):
        self.priority = lib.get_status_effect_priority(job)
        self.resources = lib.get_all_resource_settings(job)
        self.breakers = lib.get_all_combo_breakers(job)
        if lib.has_skill("Shot", job):
            self.auto = lib.get_skill("Shot", job)
        elif lib.has_skill("Auto", job):
            self.auto = lib.get_skill("Auto", job)
        else:
            self.auto = None


class Config:
    def __init__(self, snap_dots=None, autos=False, ignore_trailing=False, fight_start=None, downtime=(), default_target=DEFAULT_TARGET):
        self.snap_dots, self.autos, self.ignore_trailing = snap_dots, autos, ignore_trailing
        self.fight_start, self.downtime, self.default_target = fight_start, downtime, default_target


class Player:
    def __init__(self, speed, version, level, trait_haste=0, trait_auto=0, weapon_delay=3.0):
        self.speed, self.version, self.level = speed, version, level
        self.trait_haste, self.trait_auto, self.weapon_delay = trait_haste, trait_auto, weapon_delay


class Timeline:
    """Builds the expected event list for a rotation.

    sequence: [Press] without times; timed: [Press] with .t in ms.
    """

    def __init__(self, view, player, cfg, sequence, timed):
        self.v, self.p, self.c = view, player, cfg
        self.events = []
        self.dots = []  # (target, followup, snap, app, index)
        self.presses = []  # (t, skill name, job, conditions)
        self.details = []  # per press: dict
        self.main_targets = []
        self.casts_seq = []
        self._run_sequence(sequence)
        self.timed = sorted(timed, key=lambda p: (p.t, p.skill.name))
        self._check_ties(self.timed)
        self._run_timed(self.timed)
        self.last_before_dots = self._last()
        self._run_dots(self.last_before_dots if cfg.ignore_trailing else None)
        self.n_before_autos = len(self.events)
        self.raw_first_damage = self._first_damage()
        self.auto_times = []
        if cfg.autos:
            self._run_autos(self.last_before_dots if cfg.ignore_trailing else None)
        self.shift = 0
        if cfg.fight_start is None:
            fd = self._first_damage()
            if fd is not None:
                self.shift = fd
        self.shifted = [
            e.copy(prio=e.prio - int(1000 * self.shift), snap=e.snap - self.shift, app=e.app - self.shift)
            for e in self.events
        ]
        self.presses = [(t - self.shift, n, j, c) for t, n, j, c in self.presses]
        self.final = self._downtime(self.shifted)

    @staticmethod
    def _check_ties(timed):
        for a, b in zip(timed, timed[1:]):
            if a.t == b.t and a.skill.name == b.skill.name:
                if a.skill != b.skill or a.targets != b.targets or a.mod.cond != b.mod.cond:
                    raise Ambiguous("same skill name at the same time")

    # ---- helpers
    def _last(self):
        return max((e.app for e in self.events), default=None)

    def _first_damage(self):
        r = [e.app for e in self.events if resolve(e.skill.damage_spec, e.mod.cond) is not None]
        return min(r, default=None)

    def _timed_value(self, base, ts, haste):
        v = speed_time(base, self.p.speed, self.p.version, self.p.level) if ts.affected_by_speed_stat else base
        if ts.affected_by_haste_buffs:
            v = trunc10(v, *haste, 1 - frac(self.p.trait_haste))
        return v

    def cast_time(self, ts, mod, buffs):
        if mod.nocast:
            return 0
        v = self._timed_value(ts.base_cast_time, ts, buffs["_haste"])
        return max(0, v - buffs["flat_cast_time_reduction"])

    def recast_time(self, ts, buffs, debuffs):
        v = self._timed_value(ts.gcd_base_recast_time, ts, buffs["_haste"] + debuffs["_haste"])
        v -= buffs["flat_gcd_recast_time_reduction"]
        if ts.gcd_base_recast_time == GCD:
            v = max(v, MIN_GCD)
        return v

    def _new_trackers(self):
        return Effects(self.v.priority), Resources(self.v.resources), Combos(self.v.breakers)

    def _press_conditions(self, t, p, se, jr, co):
        se.expire(t)
        buffs, c1 = se.compile_buffs(t, p.skill)
        debuffs, c2 = se.compile_debuffs(t, p.skill)
        c3 = jr.conditions(t, p.skill)
        m = p.mod.plus(c1, c2, c3)
        m = m.plus(co.use(t, p.skill, m.cond, m.force))
        m = m.plus(positional(p.skill, m.cond, m.bonus))
        return m, buffs, debuffs

    def _press(self, t, p, m, buffs, se, jr):
        ts = resolve(p.skill.timing_spec, m.cond)
        cast = self.cast_time(ts, m, buffs)
        snap = t + max(0, cast - PRECAST)
        app = t + cast
        if not m.nodelay:
            app += max(0, ts.application_delay - PRECAST) if cast > 0 else ts.application_delay
        ev = Ev(int(1000 * snap), snap, app, p.skill, m, (True, True), p.targets, "press")
        self.events.append(ev)
        self.details.append(dict(t=t, cast=cast, snap=snap, app=app, name=p.skill.name, cond=m.cond, targets=p.targets))
        se.apply(app, p.skill, m.cond, p.targets)
        jr.add(snap, p.skill, m.cond)
        for i, fu in enumerate(resolve(p.skill.follow_up_skills, m.cond)):
            if fu.dot_duration is not None:
                for tg in p.targets:
                    self.dots.append((tg, fu, snap, app, i + 1))
                continue
            fapp = app + fu.delay_after_parent_application
            b, d = fu.snapshot_buffs_with_parent, fu.snapshot_debuffs_with_parent
            if b or d:
                fsnap, fs = snap, (b, d)
            else:
                fsnap, fs = fapp, (True, True)
            tg = p.targets[:1] if fu.primary_target_only else p.targets
            self.events.append(Ev(int(1000 * fsnap) + i + 1, fsnap, fapp, fu.skill, Mod(), fs, tg, "followup", ev))
            se.apply(fapp, fu.skill, frozenset(), tg)
            jr.add(fapp, fu.skill, frozenset())
        return ts, cast

    def _run_sequence(self, seq):
        se, jr, co = self._new_trackers()
        t = 0 if self.c.fight_start is None else self.c.fight_start
        gcd_at = -INF
        for p in seq:
            if p.skill.is_GCD:
                t = max(t, gcd_at)
            self.presses.append((t, p.skill.name, p.job, p.mod.cond))
            m, buffs, debuffs = self._press_conditions(t, p, se, jr, co)
            self.main_targets.append((t, p.targets[0]))
            ts, cast = self._press(t, p, m, buffs, se, jr)
            if p.skill.is_GCD:
                gcd_at = t + self.recast_time(ts, buffs, debuffs)
                t += cast + ts.animation_lock
            else:
                t += ts.animation_lock

    def _run_timed(self, timed):
        se, jr, co = self._new_trackers()
        for p in timed:
            self.presses.append((p.t, p.skill.name, p.job, p.mod.cond))
            m, buffs, _ = self._press_conditions(p.t, p, se, jr, co)
            self.main_targets.append((p.t, p.targets[0]))
            self._press(p.t, p, m, buffs, se, jr)

    # ---- damage over time
    def _run_dots(self, cutoff):
        groups = []
        for tg, fu, snap, app, i in self.dots:
            for g in groups:
                if g[0] == tg and g[1] == fu.skill.name:  # dots of one name override each other
                    g[2].append((app, snap, i, fu))
                    break
            else:
                groups.append((tg, fu.skill.name, [(app, snap, i, fu)]))
        self.dot_runs = []
        for tg, _, apps in groups:
            apps = sorted(apps, key=lambda x: x[0])
            for x, y in zip(apps, apps[1:]):
                if x[0] == y[0] and x != y:
                    raise Ambiguous("same dot applied twice at once")
            n = 0
            for k, (app, snap, i, fu) in enumerate(apps):
                end = app + fu.dot_duration
                if k + 1 < len(apps):
                    end = min(end, apps[k + 1][0])
                start = app
                if self.c.snap_dots is not None:
                    off = Fraction(str(self.c.snap_dots)) * 1000
                    over = (Fraction(app) - off) % TICK
                    if over != 0:
                        start = app - over + TICK
                        if start.denominator != 1:
                            raise Ambiguous("fractional server tick")
                        start = int(start)
                ticks = []
                for tt in range(start, end, TICK):
                    if cutoff is not None and tt > cutoff:
                        continue
                    s = (fu.snapshot_buffs_with_parent, fu.snapshot_debuffs_with_parent)
                    self.events.append(
                        Ev(int(1000 * snap) + i + n, snap, tt, fu.skill, Mod(), s if tt != snap else (True, True), (tg,), "dot")
                    )
                    ticks.append(tt)
                    n += 1
                self.dot_runs.append((tg, fu, snap, app, end, ticks))

    # ---- autos
    def windows_for(self, target):
        w = self.c.downtime
        if isinstance(w, dict):
            w = w.get(target, ())
        return [(round(x[0] * 1000), round(x[1] * 1000), x[2] if len(x) > 2 else None) for x in w]

    def no_auto_periods(self):
        se, jr, co = self._new_trackers()
        ch = Channel()
        casts = []
        for p in self.timed:
            se.expire(p.t)
            ch.press(p.t, p.skill, p.mod.cond)
            m, buffs, _ = self._cond_no_pos(p.t, p, se, jr, co)
            ct = self.cast_time(resolve(p.skill.timing_spec, m.cond), m, buffs)
            if ct > 0:
                casts.append((p.t, p.t + ct))
            se.apply(p.t, p.skill, m.cond, (self.c.default_target,))
            jr.add(p.t, p.skill, m.cond)
        ch.finish()
        return sorted(ch.windows + casts)

    def _cond_no_pos(self, t, p, se, jr, co):
        buffs, c1 = se.compile_buffs(t, p.skill)
        _, c2 = se.compile_debuffs(t, p.skill)
        m = p.mod.plus(c1, c2, jr.conditions(t, p.skill))
        m = m.plus(co.use(t, p.skill, m.cond, m.force))
        return m, buffs, None

    def _speed_effects(self):
        r = []
        for e in sorted(self.events, key=lambda e: (e.prio, e.skill.name)):
            b = resolve(e.skill.buff_spec, e.mod.cond)
            d = resolve(e.skill.debuff_spec, e.mod.cond)
            ok = False
            if b is not None:
                ok = (b.auto_attack_delay_reduction > 0 or b.haste_time_reduction > 0 or b.flat_cast_time_reduction > 0
                      or b.clear_all_status_effects or len(b.expires_status_effects) > 0)
            if d is not None:
                ok = ok or d.auto_attack_delay_reduction > 0 or d.haste_time_reduction > 0 or d.flat_cast_time_reduction > 0
            if ok:
                r.append((e.app, e))
        r.sort(key=lambda x: x[0])
        return r

    def _auto_delay(self, t, speed):
        se = Effects(self.v.priority)
        for app, e in speed:
            if app > t:
                break
            se.expire(app)
            se.apply(app, e.skill, e.mod.cond, (self.c.default_target,))
        se.expire(t)
        b, _ = se.compile_buffs(t, self.v.auto)
        d, _ = se.compile_debuffs(t, self.v.auto)
        return trunc10(round(1000 * self.p.weapon_delay), 1 - frac(self.p.trait_auto), *b["_auto"], *d["_auto"])

    def _run_autos(self, last):
        fd = self._first_damage()
        if fd is None:
            return
        if last is None:
            last = self._last()
        offset = fd if self.c.fight_start is None else 0
        speed = self._speed_effects()
        quiet = self.no_auto_periods()
        mt = sorted(self.main_targets, key=lambda x: x[0])
        delay = self.v.auto.timing_spec.application_delay
        t = fd
        while t + delay < last:
            tg = mt[0][1]
            for tt, g in mt:
                if tt <= t:
                    tg = g
            self.events.append(Ev(int(1000 * t), t, t + delay, self.v.auto, Mod(), (True, True), (tg,), "auto"))
            self.auto_times.append((t, tg))
            t += self._auto_delay(t, speed)
            for lo, hi, dc in self.windows_for(tg):
                if lo <= t - offset < hi and (dc is None or enum_name(dc) == "AUTO"):
                    t = hi + offset
                    break
            hits = [b for a, b in quiet if a <= t <= b]
            if hits:
                t = max(hits)

    # ---- downtime
    def _downtime(self, events):
        res = []
        self.dropped = []
        for e in events:
            ds = resolve(e.skill.damage_spec, e.mod.cond)
            if ds is None:
                res.append(e)
                continue
            keep = []
            for tg in e.targets:
                lands = e.app + STAGGER * len(keep)
                bad = False
                for lo, hi, dc in self.windows_for(tg):
                    if dc is None or enum_name(dc) == enum_name(ds.damage_class):
                        if lo <= e.snap < hi or lo <= lands < hi:
                            bad = True
                if not bad:
                    keep.append(tg)
            if keep:
                res.append(e if tuple(keep) == tuple(e.targets) else e.copy(targets=tuple(keep)))
            if tuple(keep) != tuple(e.targets):
                self.dropped.append(e)
        return res


# --------------------------------------------------------------- damage instances
class _Rev(str):
    """A string that sorts in reverse."""

    def __lt__(self, o):
        return str.__gt__(self, o)

    def __gt__(self, o):
        return str.__lt__(self, o)


def damage_instances(view, events, ties=(1, 1)):
    """Expected damage instances of a timeline.

    Returns a list of dicts sorted by time. events: [Ev].  ties says in which
    order simultaneous events are processed (at snapshot, at application).
    """
    se, jr, co = Effects(view.priority), Resources(view.resources), Combos(view.breakers)
    s1, s2 = ties
    n1 = str if s1 > 0 else _Rev
    n2 = str if s2 > 0 else _Rev
    h = []
    cnt = 0
    for i, e in enumerate(events):
        imm = e.snap == e.app
        heapq.heappush(h, (e.prio, n1(e.skill.name), s1 * cnt, dict(
            t=e.snap, app=None if imm else e.app, skill=e.skill, mod=e.mod,
            b=True if imm else e.snaps[0], d=True if imm else e.snaps[1],
            targets=e.targets, eid=i, res_done=False, jc_done=False, co_done=False, kind=e.kind)))
        cnt += 1
    out = []
    while h:
        prio, _, _, x = heapq.heappop(h)
        t, skill, m, b, d = x["t"], x["skill"], x["mod"], x["b"], x["d"]
        se.expire(t)
        multi = len(x["targets"]) > 1
        if x["app"] is None:
            if not x["jc_done"]:
                m = m.plus(jr.conditions(t, skill))
            if not x["res_done"]:
                jr.add(t, skill, m.cond)
            if not x["co_done"]:
                m = m.plus(co.use(t, skill, m.cond, m.force))
                m = m.plus(positional(skill, m.cond, m.bonus))
            if not isinstance(b, dict):
                b, c = se.compile_buffs(t, skill)
                m = m.plus(c)
            for i, tg in enumerate(x["targets"]):
                mm = m.plus(frozenset([f"Target {i + 1}"])) if multi else m
                dd = d
                if not isinstance(dd, dict):
                    dd, c = se.compile_debuffs(t, skill, tg)
                    mm = mm.plus(c)
                    if not multi:
                        m = mm
                ds = resolve(skill.damage_spec, mm.cond)
                if ds is not None:
                    out.append(dict(t=t + (i * STAGGER if multi else 0), name=skill.name, cond=mm.cond, buffs=b,
                                    debuffs=dd, target=tg, eid=x["eid"], spec=ds, skill=skill, mod=mm, kind=x["kind"],
                                    snap=events[x["eid"]].snap))
            se.apply(t, skill, m.cond, x["targets"])
        else:
            if b is True:
                b, c = se.compile_buffs(t, skill)
                m = m.plus(c)
            newp = int(1000 * x["app"]) + (int(1000 * t) - prio)
            jc = False
            if skill.job_resources_snapshot:
                m = m.plus(jr.conditions(t, skill))
                jc = True
            m = m.plus(co.use(t, skill, m.cond, m.force))
            m = m.plus(positional(skill, m.cond, m.bonus))
            jr.add(t, skill, m.cond)
            for i, tg in enumerate(x["targets"]):
                mm = m.plus(frozenset([f"Target {i + 1}"])) if multi else m
                dd = d
                if dd is True:
                    dd, c = se.compile_debuffs(t, skill, tg)
                    mm = mm.plus(c)
                    if not multi:
                        m = mm
                st = i * STAGGER if multi else 0
                heapq.heappush(h, (newp + int(1000 * st), n2(skill.name), s2 * cnt, dict(
                    t=x["app"] + st, app=None, skill=skill, mod=mm, b=b, d=dd, targets=(tg,), eid=x["eid"],
                    res_done=True, jc_done=jc, co_done=True, kind=x["kind"])))
                cnt += 1
    out.sort(key=lambda o: o["t"])
    return out
