"""Independent damage formulas in exact arithmetic.

Every function works on *sets* of possible values: where the exact value sits
on (or within float error of) a floor boundary both neighbours are possible, so
a different but equivalent order of floating point operations never matters.
"""
from fractions import Fraction as F

from .model import frac

LV = {90: dict(div=1900, main=390, sub=400, fap=195, tank=156, ten=100, dh=550, det=140, spd=130),
      100: dict(div=2780, main=440, sub=420, fap=237, tank=190, ten=112, dh=550, det=140, spd=130)}
CRIT = (200, 50, 400)
JOB_MODS = {"SCH": 115, "SGE": 115, "WHM": 115, "AST": 115, "WAR": 105, "DRK": 105, "PLD": 100, "GNB": 100, "SAM": 112,
            "DRG": 115, "RPR": 115, "MNK": 110, "NIN": 110, "VPR": 110, "DNC": 115, "MCH": 115, "BRD": 115, "RDM": 115,
            "SMN": 115, "BLM": 115, "PCT": 115}
TANKS = {"PLD", "WAR", "DRK", "GNB"}
HEALERS = {"WHM", "SCH", "AST", "SGE"}
CASTERS = {"BLM", "SMN", "RDM", "PCT"}
RANGED = {"BRD", "MCH", "DNC"}
EPS = F(1, 10**9)


def fl(S):
    """floor of every member; both neighbours near a boundary."""
    out = set()
    for x in (S if isinstance(S, (set, frozenset)) else {S}):
        n = x.numerator // x.denominator
        d = x - n
        e = EPS * max(F(1), abs(x))
        out.add(F(n))
        if d < e and x.denominator != 1:
            out.add(F(n - 1))
        elif d == 0:
            out.add(F(n))
        if 1 - d < e:
            out.add(F(n + 1))
    return out


def fl_loose(S):
    """floor where float rounding may also move an exact integer below itself."""
    out = fl(S)
    for x in (S if isinstance(S, (set, frozenset)) else {S}):
        if x.denominator == 1:
            out.add(F(x - 1))
    return out


def mp(f, *sets):
    from itertools import product
    sets = [s if isinstance(s, (set, frozenset)) else {s} for s in sets]
    out = {f(*xs) for xs in product(*sets)}
    if len(out) > 4000:
        raise OverflowError
    return out


def trait_mult(job):
    if job in HEALERS or job in CASTERS:
        return F(13, 10)
    if job in RANGED:
        return F(12, 10)
    return F(1)


def crit(stat, level):
    L = LV[level]
    k = (CRIT[0] * (F(stat) - L["sub"])) / L["div"]
    k = k.numerator // k.denominator
    return F(k + CRIT[1], 1000), F(k + CRIT[2], 1000)


def dh(stat, level):
    L = LV[level]
    k = L["dh"] * (F(stat) - L["sub"]) / L["div"]
    return F(k.numerator // k.denominator, 1000)


def det(stat, level):
    L = LV[level]
    k = L["det"] * (F(stat) - L["main"]) / L["div"]
    return F(k.numerator // k.denominator + 1000)


def det_dh(dstat, hstat, level):
    L = LV[level]
    k = L["det"] * (F(hstat) - L["sub"]) / L["div"]
    return det(dstat, level) + F(k.numerator // k.denominator)


def spd(stat, level):
    L = LV[level]
    k = L["spd"] * (F(stat) - L["sub"]) / L["div"] + 1000
    return F(k.numerator // k.denominator)


def tnc(stat, level):
    L = LV[level]
    k = L["ten"] * (F(stat) - L["sub"]) / L["div"]
    return F(k.numerator // k.denominator + 1000)


def wd(w, mod, level):
    L = LV[level]
    k = F(L["main"] * mod, 1000) + frac(w)
    return F(k.numerator // k.denominator)


def ap(main_set, tank, level):
    L = LV[level]
    c = L["tank"] if tank else L["fap"]
    return mp(lambda x: x + 100, fl(mp(lambda m: c * (m - L["main"]) / L["main"], main_set)))


def E(e, f):
    return frac(e[f] if isinstance(e, dict) else getattr(e, f))


def main_stat(st, b, d):
    m = fl_loose({F(st["main_stat"]) * E(b, "main_stat_mult") * E(d, "main_stat_mult")}) if (
        E(b, "main_stat_mult") != 1 or E(d, "main_stat_mult") != 1) else {F(st["main_stat"])}
    add = E(b, "main_stat_add") + E(d, "main_stat_add")
    return fl_loose(mp(lambda x: (x + add) * (1 + F(st["num_roles_in_party"], 100)), m)) if st["num_roles_in_party"] else mp(lambda x: x + add, m)


def force(spec, mod_gc, mod_gdh, b, d):
    from .model import enum_name

    def val(x, f):
        return enum_name(x[f] if isinstance(x, dict) else getattr(x, f))
    c = {val(spec, "guaranteed_crit"), mod_gc, val(b, "guaranteed_crit"), val(d, "guaranteed_crit")}
    h = {val(spec, "guaranteed_dh"), mod_gdh, val(b, "guaranteed_dh"), val(d, "guaranteed_dh")}
    return c, h


def rates(st, spec, mod_gc, mod_gdh, b, d):
    """(crit rate, dh rate, conflict)"""
    c, h = force(spec, mod_gc, mod_gdh, b, d)
    conflict = ({"FORCE_YES", "FORCE_NO"} <= c) or ({"FORCE_YES", "FORCE_NO"} <= h)
    cr = crit(st["crit_stat"], st["level"])[0] + E(b, "crit_rate_add") + E(d, "crit_rate_add")
    dr = dh(st["dh_stat"], st["level"]) + E(b, "dh_rate_add") + E(d, "dh_rate_add")
    cr, dr = min(cr, F(1)), min(dr, F(1))  # buffs cannot push a rate past certainty
    if "FORCE_YES" in c:
        cr = F(1)
    elif "FORCE_NO" in c:
        cr = F(0)
    if "FORCE_YES" in h:
        dr = F(1)
    elif "FORCE_NO" in h:
        dr = F(0)
    return cr, dr, conflict


def base_damage(st, spec, mod_gc, mod_gdh, b, d):
    """Set of possible base damages (Fractions) of one hit."""
    from .model import enum_name
    job, level = st["job_class"], st["level"]
    cls = enum_name(spec.damage_class)
    pot = frac(spec.potency)
    if pot == 0:
        return {F(0)}
    c, h = force(spec, mod_gc, mod_gdh, b, d)
    forced_c, forced_h = "FORCE_YES" in c, "FORCE_YES" in h
    tank = job in TANKS
    caster = job in HEALERS or job in CASTERS
    mod = JOB_MODS[job]
    dt = det_dh(st["det_stat"], st["dh_stat"], level) if forced_h else det(st["det_stat"], level)
    t = tnc(st["tenacity"], level) if tank else None
    if cls == "PET":
        pm = mod if spec.pet_job_mod_override is None else spec.pet_job_mod_override
        Lm = LV[level]["main"]
        diff = (Lm * mod) // 100 - int((F(Lm) * frac(pm)) // 100)
        m = fl_loose({(F(st["main_stat"]) - diff) * E(b, "main_stat_mult") * E(d, "main_stat_mult")})
        add = E(b, "main_stat_add") + E(d, "main_stat_add")
        m = mp(lambda x: (x + add) * frac(spec.pet_scalar), m)
        a = ap(m, False, level)
        w = fl({F(Lm) * frac(pm) / 1000 + frac(st["wd"])})
    elif cls == "AUTO":
        if caster:
            m = {F(st["healer_or_caster_strength"]) * (1 + F(st["num_roles_in_party"], 100))}
        else:
            m = main_stat(st, b, d)
        a = ap(m, tank, level)
    else:
        a = ap(main_stat(st, b, d), tank, level)
        w = {wd(st["wd"], mod, level)}

    def physical(w):
        x = mp(lambda p: p / 100, fl_loose(mp(lambda a: pot * a / 100, a)))
        x = mp(lambda p: p / 100, fl_loose(mp(lambda p: p * dt / 10, x)))
        if tank:
            x = mp(lambda p: p / 100, fl_loose(mp(lambda p: p * t / 10, x)))
        return x
    if cls == "DIRECT" and caster:
        x = mp(lambda p: p / 100, fl_loose(mp(lambda a: a * dt / 1000, a)))
        y = fl_loose(mp(lambda w: w * pot / 100, w))
        x = fl_loose(mp(lambda p, q: p * q, x, y))
    elif cls in ("DIRECT", "PET"):
        x = fl_loose(mp(lambda p, q: p * q, physical(w), w))
    elif cls == "AUTO":
        s = spd(st["speed_stat"], level) if job not in HEALERS and job not in CASTERS else F(1000)
        x = mp(lambda p: p / 10, fl_loose(mp(lambda p: p * s, physical(None))))
        au = fl_loose({wd(st["wd"], mod, level) * frac(st["weapon_delay"]) / 3})
        x = fl_loose(mp(lambda p: p / 100, fl_loose(mp(lambda p, q: p * q, x, au))))
    elif cls == "MAGICAL_DOT":
        s = spd(st["speed_stat"], level)
        x = fl(mp(lambda p: p / 100, fl_loose(mp(lambda w: pot * w, w))))
        x = mp(lambda p, q: p * q * s, x, a)
        x = fl(mp(lambda p: p * dt / 1000, x))
        if tank:
            x = fl(mp(lambda p: p * t / 1000, x))
        x = fl(mp(lambda p: p / 100, fl(mp(lambda p: p / 1000, x))))
    elif cls == "PHYSICAL_DOT":
        s = spd(st["speed_stat"], level)
        x = mp(lambda p: p / 1000, fl_loose(mp(lambda a: pot * a * dt / 100, a)))
        if tank:
            x = fl_loose(mp(lambda p: p * t / 1000, x))
        x = fl_loose(mp(lambda p: p / 1000, fl_loose(mp(lambda p: p * s, x))))
        x = fl_loose(mp(lambda p: p / 100, fl_loose(mp(lambda p, q: p * q, x, w))))
    else:
        raise AssertionError(cls)
    bonus_h = F(1, 4) * (E(b, "dh_rate_add") + E(d, "dh_rate_add")) if forced_h else F(0)
    bonus_c = crit(st["crit_stat"], level)[1] * (E(b, "crit_rate_add") + E(d, "crit_rate_add")) if forced_c else F(0)
    out = set()
    for v in x:
        for p in (fl_loose({v * bonus_h}) if bonus_h else {F(0)}):
            for q in (fl_loose({v * bonus_c}) if bonus_c else {F(0)}):
                out.add(max(F(1), (v + p + q) * frac(spec.single_damage_mult)))
    return out


def close(x, S, tol=1e-6):
    return any(abs(float(v) - float(x)) <= tol for v in S)


def hit(base, crit_bonus, is_crit, is_dh, trait, mult):
    """Set of possible damages of a hit whose (already rolled, floored) base is given."""
    x = base if isinstance(base, (set, frozenset)) else {base}
    if is_crit:
        x = mp(lambda v, k: v + k, {0}, {0}) and {v + k for v in x for k in fl_loose({v * crit_bonus})}
    if is_dh:
        x = {v + k for v in x for k in fl({v * F(1, 4)})}
    x = fl_loose(mp(lambda v: v * trait, x)) if trait != 1 else x
    x = fl_loose(mp(lambda v: v * mult, x)) if mult != 1 else x
    return x


def ranges(bases, crit_bonus, trait, mult):
    """[(low set, high set)] for none / crit / dh / crit+dh."""
    lo = fl_loose(mp(lambda v: v * F(95, 100), bases))
    hi = fl_loose(mp(lambda v: v * F(105, 100), bases))
    return [(hit(lo, crit_bonus, c, h, trait, mult), hit(hi, crit_bonus, c, h, trait, mult))
            for c, h in ((False, False), (True, False), (False, True), (True, True))]
