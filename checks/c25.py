"""C25: every skill a library lists can be used, alone and under every condition it declares."""
import random
import re

from vp import engine
from vp import gen as G
from vp import model as M
from vp.env import CASTERS, HEALERS, JOBS, TANKS, VERSIONS, DamageSimulator, SkillModifier, TimingSpec, real_lib
from vp.harness import RealCrash, call

RULE = ("distinct (library, job, skill, condition) presses: each is laid out, turned into damage, compared with the reference and simulated; "
        "plus the potions, waits and limit breaks every job must have")
ASSUMPTIONS = ["MCH Automaton Queen has no entry for being used without a battery gauge and is only used with one"]
NO_DEFAULT = {("MCH", "Automaton Queen")}
POTS = {"Grade 7 Tincture": (223, 6.0), "Grade 8 Tincture": (262, 6.0), "Grade 1 Gemdraught": (351, 7.0), "Grade 2 Gemdraught": (392, 7.05)}


def scenario(rng, v, l, job, presses):
    return dict(lib=dict(kind="real", version=v, level=l), job=job, stats=G.rand_stats(rng, job, v, l),
                rb=dict(snap_dots=None, autos=False, trailing=False, fight_start=None, downtime=None, default_target="Default Target"),
                presses=presses)


def press(name, cond=None, t=None, **kw):
    return dict(skill=name, job=None, mod=dict(cond=", ".join(sorted(cond))) if cond else None, targets=None, t=t, **kw)


def all_cases(ctx):
    """(version, level, job, skill, condition)"""
    i = 0
    for v, l in VERSIONS:
        lib = real_lib(v, l)
        for job in [j for j in JOBS if lib.has_job_class(j)]:
            i += 1
            if not ctx.mine(i):
                continue
            for n in G.skill_names(lib, job):
                if n.startswith("Wait "):
                    continue
                sk = lib.get_skill(n, job)
                if sk.timing_spec is None:
                    continue
                ks = [k for k in G.cond_keys(sk) if not any(a.startswith("Target ") for a in k)]
                if ctx.quick and len(ks) > 40:
                    ks = random.Random(f"{ctx.seed}/{v}/{l}/{job}/{n}").sample(ks, 40)
                for k in [None] + ks:
                    yield v, l, job, n, k


def used(ctx, case):
    v, l, job, n, k = case["v"], case["l"], case["job"], case["skill"], case["cond"]
    rng = random.Random(f"{case['v']}{n}{k}")
    lib = real_lib(v, l)
    sk = lib.get_skill(n, job)
    if sk.name != n or not lib.has_skill(n, job):
        return f"{job} {n}: listed under another name ({sk.name})"
    for t in (None, 1500):
        sc = scenario(rng, v, l, job, [press(n, k, t)])
        try:
            probs, tl, inst, real = engine.compare(sc, ("presses", "events", "instances"))
        except M.NoSpec:
            if (job, n) in NO_DEFAULT and not k:
                ctx.count("skipped: needs a condition")
                return None
            return f"{job} {n} has no entry for being used {'under ' + str(sorted(k)) if k else 'without a condition'}"
        except (M.Ambiguous, M.ForceConflict):
            ctx.count("skipped: order of simultaneous effects")
            return None
        if probs:
            return f"{v}/{l} {job} {n} {sorted(k) if k else ''}: {probs[0]}"
        if not real.presses:
            return f"{v}/{l} {job} {n}: no button press recorded"
        ctx.count("presses compared")
        ctx.count("events compared", len(tl.final))
    sim = call(DamageSimulator, real.stats, real.inst, 2)
    rows = call(sim.get_per_skill_damage, rb=real.rb)
    if len(rows) != len(real.inst):
        return f"{v}/{l} {job} {n}: {len(real.inst)} damage instances, {len(rows)} rows in the report"
    for r in rows:
        ctx.count("hits simulated")
        if r.potency and not r.expected_damage > 0:
            return f"{v}/{l} {job} {n} {sorted(k) if k else ''}: potency {r.potency} but expected damage {r.expected_damage}"
    return None


def references(ctx, v, l, job):
    """combo predecessors exist in the job's library"""
    lib = real_lib(v, l)
    names = set(G.skill_names(lib, job))
    out = []
    for n in sorted(names):
        if n.startswith("Wait "):
            continue
        sk = lib.get_skill(n, job)
        for f in [sk] + [fu.skill for fu in G.all_follow_ups(sk)]:
            for val in G.values(f.combo_spec):
                for c in val:
                    for a in c.combo_actions:
                        ctx.count("combo predecessors resolved")
                        if a not in names:
                            out.append(f"{v}/{l} {job} {n} continues the combo of {a}, which the job does not have")
    return out


# variants chosen by hand: the state names what happened, it does not come from the effect or gauge of that name
BY_HAND = {("BLM", "Fire", "Firestarter"), ("BRD", "Ladonsbite", "Barrage")} | {
    ("BRD", s, "Repertoire") for s in ("Army's Paeon", "Mage's Ballad", "The Wanderer's Minuet")}


def covered(ctx, v, l, job):
    """a skill with a variant for an effect or gauge of its job is one that the effect or gauge covers"""
    lib = real_lib(v, l)
    gauges = lib.get_all_resource_settings(job)
    skills, effects, out = [], {}, []

    def add(sk):
        skills.append(sk)
        for f in ("buff_spec", "debuff_spec"):
            for x in G.values(getattr(sk, f)):
                if x is not None and x.add_to_skill_modifier_condition:
                    effects.setdefault(sk.name, []).append(x.skill_allowlist)
        for fu in G.all_follow_ups(sk):
            add(fu.skill)
    for n in G.skill_names(lib, job):
        if not n.startswith("Wait "):
            add(lib.get_skill(n, job))
    for sk in skills:
        for a in sorted({a for k in G.cond_keys(sk) for a in k}):
            m = re.match(r"(\d+) (.+)$", a)
            if a in effects:
                name, lists = a, effects[a]
            elif (m[2] if m else a) in gauges:
                name = m[2] if m else a
                lists = [gauges[name].skill_allowlist]
            else:
                continue
            if (job, sk.name, name) in BY_HAND:
                continue
            ctx.count("variants traced to an effect or gauge")
            if not any(x is None or sk.name in x for x in lists):
                out.append(f"{v}/{l} {job} {sk.name} has a variant for {a}, but {name} does not cover it")
    return sorted(set(out))


_vocab = {}


def vocabulary(job):
    """(names of skills and follow-ups, names of effects) the job has in any supported version"""
    if job not in _vocab:
        names, effects = set(), set()

        def add(sk):
            names.add(sk.name)
            if any(x is not None for f in ("buff_spec", "debuff_spec") for x in G.values(getattr(sk, f))):
                effects.add(sk.name)
            for fu in G.all_follow_ups(sk):
                add(fu.skill)
        for v, l in VERSIONS:
            lib = real_lib(v, l)
            if lib.has_job_class(job):
                for n in G.skill_names(lib, job):
                    if not n.startswith("Wait "):
                        add(lib.get_skill(n, job))
        _vocab[job] = (names, effects)
    return _vocab[job]


def mentions(ctx, v, l, job):
    """what effects, gauges and priorities name exists (in some supported version)"""
    lib = real_lib(v, l)
    names, effects = vocabulary(job)
    party = set().union(*(vocabulary(j)[1] for j in JOBS))
    out = []

    def need(what, xs, where):
        for x in xs or ():
            ctx.count("names mentioned by declarations resolved")
            if x not in where:
                out.append(f"{v}/{l} {job} {what} {x}, which the job does not have in any version")

    def look(src, sk):
        for f in ("buff_spec", "debuff_spec"):
            for x in G.values(getattr(sk, f)):
                if x is not None:
                    need(f"{src}: effect limited to", x.skill_allowlist, names)
                    need(f"{src}: expires", x.expires_status_effects, effects)
        need(f"{src}: not affected by", sk.status_effect_denylist, party)
        for x in G.values(sk.job_resource_spec):
            need(f"{src}: changes the gauge", [r.name for r in x if r.name], gauges)
        for fu in G.all_follow_ups(sk):
            look(f"{src} > {fu.skill.name}", fu.skill)
    settings = lib.get_all_resource_settings(job)
    gauges = set(settings)
    for n in G.skill_names(lib, job):
        if not n.startswith("Wait "):
            look(n, lib.get_skill(n, job))
    need("effect priority:", lib.get_status_effect_priority(job), effects)
    for g, r in settings.items():
        need(f"gauge {g} seen by", r.skill_allowlist, names)
    return out


def elements(ctx, v, l):
    """BLM: what Astral Fire and Umbral Ice do to a spell does not depend on its other conditions"""
    lib = real_lib(v, l)
    out = []
    for n in G.skill_names(lib, "BLM"):
        if n.startswith("Wait "):
            continue
        sk = lib.get_skill(n, "BLM")
        if not isinstance(sk.damage_spec, dict):
            continue
        el = lambda a: bool(re.match(r"[123] (Astral Fire|Umbral Ice)$", a))  # noqa
        atoms = sorted({a for k in G.cond_keys(sk) for a in k if not el(a) and a})
        rests = {frozenset()} | {frozenset([a]) for a in atoms} | {frozenset(x for x in k if not el(x) and x) for k in G.cond_keys(sk)}
        els = sorted({a for k in G.cond_keys(sk) for a in k if el(a)})

        def power(cond):
            d = call(sk.get_damage_spec, SkillModifier(with_condition=", ".join(sorted(cond))))
            return None if d is None else d.potency * d.single_damage_mult
        for e in els:
            base = power(frozenset([e])) / power(frozenset())
            for r in rests:
                a, b = power(r | {e}), power(r)
                if a is None or not b:
                    continue
                ctx.count("element factors compared")
                if abs(a / b - base) > 0.02:
                    out.append(f"{v}/{l} BLM {n} under {sorted(r | {e})}: {e} multiplies by {a / b:.3f}, otherwise by {base:.3f}")
    return out


EITHER = {("PLD", "Divine Might", "Requiescat")}  # the game uses up only one of the two


def variants(ctx, v, l, job):
    """what a state adds to a hit does not depend on the other states, and failing a combo or a positional never helps"""
    lib = real_lib(v, l)
    out = []
    skip = lambda k: any(a.startswith("Target ") for a in k)  # noqa

    def look(sk, cond):
        d = call(sk.get_damage_spec, SkillModifier(with_condition=", ".join(sorted(cond))))
        return None if d is None else (d.potency * d.single_damage_mult, (d.guaranteed_crit.name, d.guaranteed_dh.name, d.damage_class.name))
    for n in G.skill_names(lib, job):
        if n.startswith("Wait "):
            continue
        top = lib.get_skill(n, job)
        for sk in [top] + [fu.skill for fu in G.all_follow_ups(top)]:
            if not isinstance(sk.damage_spec, dict):
                continue
            keys = {frozenset(a for a in M.canon(k) if a) for k in sk.damage_spec}
            keys = {k for k in keys if not skip(k)}
            got = {k: look(sk, k) for k in keys}
            for a in sorted({a for k in keys for a in k}):
                pairs = [(k - {a}, k) for k in sorted(keys, key=sorted) if a in k and k - {a} in keys]
                if a in ("No Positional", "No Combo"):
                    for r, k in pairs:
                        ctx.count("failed positionals and combos compared")
                        if got[k] is not None and (got[r] is None or got[k][0] > got[r][0] + 1e-9):
                            out.append(f"{v}/{l} {job} {n} {sorted(k)}: stronger ({got[k]}) than {sorted(r)} ({got[r]})")
                pairs = [(r, k) for r, k in pairs if got[r] and got[k] and got[r][0]
                         and not any(j == job and a in (x, y) and {x, y} <= k for j, x, y in EITHER)]
                if len(pairs) < 2:
                    continue
                ctx.count("states compared across variants")
                ratio = [got[k][0] / got[r][0] for r, k in pairs]
                delta = [got[k][0] - got[r][0] for r, k in pairs]
                if max(ratio) - min(ratio) > 0.02 and max(delta) - min(delta) > 1e-6:
                    out.append(f"{v}/{l} {job} {n}: {a} changes the potency by {dict(zip([str(sorted(k)) for r, k in pairs], delta))}")
                flags = {}
                for r, k in pairs:
                    if flags.setdefault(got[r][1], got[k][1]) != got[k][1]:
                        out.append(f"{v}/{l} {job} {n}: {a} makes some variants {flags[got[r][1]]} and {sorted(k)} {got[k][1]}")
    return out


def plain_gcd(lib, job, rng):
    """a GCD whose second press is paced like the first"""
    ok = [n for n in G.skill_names(lib, job) if (k := lib.get_skill(n, job)).is_GCD and isinstance(k.timing_spec, TimingSpec)
          and not (k.has_buff or k.has_debuff or k.job_resource_spec or k.combo_spec or k.channeling_spec)]
    return rng.choice(sorted(ok)) if ok else None


def generic(ctx, v, l, job):
    lib = real_lib(v, l)
    rng = random.Random(f"{v}{l}{job}{ctx.seed}")
    for pot, (add, since) in POTS.items():
        has = lib.has_skill(pot, job)
        if has != (float(v) >= since):
            return f"{v}/{l} {job} {'has' if has else 'lacks'} {pot}"
        if not has:
            continue
        hit = next((n for n in G.skill_names(lib, job) if n in ("Auto", "Shot")), None)
        if hit is None:
            return f"{v}/{l} {job} has no auto attack"
        sk = lib.get_skill(pot, job)
        ad = sk.timing_spec.application_delay
        # an auto just before it applies, just after, at the last moment and after it ended
        ts = [ad - 10, ad + 10, ad + 29960, ad + 29980]
        sc = scenario(rng, v, l, job, [press(pot, None, 0)] + [press(hit, None, t) for t in ts])
        sc["rb"]["fight_start"] = 0
        real = G.run_real(sc)
        got = sorted((x[0], x[3][0].main_stat_add) for x in real.inst)
        ctx.count("potion hits", len(got))
        if [round(x[1]) for x in got] != [0, add, add, 0]:
            return f"{v}/{l} {job} {pot}: hits at {ts} ms have main stat +{[x[1] for x in got]}, expected 0, {add}, {add}, 0"
    for ms in {0, 10, 9990, rng.randrange(0, 1000) * 10, rng.randrange(0, 1000) * 10}:
        w = f"Wait {ms / 1000:.2f}s"
        if not lib.has_skill(w, job):
            return f"{v}/{l} {job} has no {w}"
        sc = scenario(rng, v, l, job, [press(w), press("Grade 8 Tincture")])
        sc["rb"]["fight_start"] = 0
        real = G.run_real(sc)
        t = {p[1]: p[0] for p in real.presses}
        ctx.count("waits timed")
        if round(t["Grade 8 Tincture"] - t[w]) != ms:
            return f"{v}/{l} {job} {w} lasts {t['Grade 8 Tincture'] - t[w]} ms"
        g = plain_gcd(lib, job, rng)
        if g:  # between two GCDs: counts from the end of the first one's lock, and the recast goes on meanwhile
            sc = scenario(rng, v, l, job, [press(g), press(g)])
            two = [p[0] for p in G.run_real(sc).presses]
            sc["presses"] = [press(g), press(w), press(g)]
            r = [p[0] for p in G.run_real(sc).presses]
            ctx.count("waits between GCDs")
            want = max(two[1] - two[0], r[1] - r[0] + ms)
            if round(r[2] - r[0]) != round(want):
                return f"{v}/{l} {job} {g}, {w}, {g}: pressed at {r}, the second one expected {want} ms after the first"
    damaging = job not in TANKS and job not in HEALERS
    for i in (1, 2, 3):
        if not lib.has_skill(f"LB {i}", job):
            return f"{v}/{l} {job} has no LB {i}"
        real = G.run_real(scenario(rng, v, l, job, [press(f"LB {i}")]))
        ctx.count("limit breaks used")
        if bool(real.inst) != damaging:
            return f"{v}/{l} {job} LB {i} {'deals' if real.inst else 'deals no'} damage"
    return None


def run(ctx):
    for v, l, job, n, k in all_cases(ctx):
        if ctx.stop():
            break
        case = dict(kind="use", v=v, l=l, job=job, skill=n, cond=sorted(k) if k else None)
        try:
            p = used(ctx, case)
        except RealCrash as e:
            p = f"crash using {v}/{l} {job} {n} {case['cond'] or ''}: {e}"
        ctx.seen((v, l, job, n, case["cond"]))
        if p:
            ctx.violation(p, case)
    i = 0
    for v, l in VERSIONS:
        lib = real_lib(v, l)
        for job in [j for j in JOBS if lib.has_job_class(j)]:
            i += 1
            if not ctx.mine(i) or ctx.stop():
                continue
            case = dict(kind="generic", v=v, l=l, job=job)
            for fn, name in ((generic, "generic"), (references, "references"), (variants, "variants"), (mentions, "mentions"), (covered, "covered")) + (((lambda c, a, b, j: elements(c, a, b), "elements"),) if job == "BLM" else ()):
                try:
                    p = fn(ctx, v, l, job)
                except RealCrash as e:
                    p = f"crash: {e}"
                for x in ([p] if isinstance(p, str) else p or [])[:2]:
                    ctx.violation(x, dict(case, kind=name))
            ctx.seen((v, l, job, "generic"))
    ctx.sample(dict(observed=dict(ctx.counts)))
    ctx.need("presses compared", 8000)
    ctx.need("hits simulated", 4000)
    ctx.need("potion hits", 1000)
    ctx.need("names mentioned by declarations resolved", 2000)
    ctx.need("variants traced to an effect or gauge", 500)
    ctx.need("failed positionals and combos compared", 500)
    ctx.need("states compared across variants", 100)


def replay(ctx, case):
    fn = dict(use=lambda: used(ctx, case), generic=lambda: generic(ctx, case["v"], case["l"], case["job"]),
              mentions=lambda: mentions(ctx, case["v"], case["l"], case["job"]),
              covered=lambda: covered(ctx, case["v"], case["l"], case["job"]),
              variants=lambda: variants(ctx, case["v"], case["l"], case["job"]),
              references=lambda: references(ctx, case["v"], case["l"], case["job"]), elements=lambda: elements(ctx, case["v"], case["l"]))[case["kind"]]
    try:
        p = fn()
    except RealCrash as e:
        p = f"crash: {e}"
    for x in [p] if isinstance(p, str) else p or []:
        ctx.violation(x, case)
