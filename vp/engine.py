"""Runs scenarios on the real code and the reference model and compares what both observed."""
import copy
import random

from . import gen as G
from . import model as M
from .harness import RealCrash


def restrict(rows, name_idx, names):
    return rows if names is None else [r for r in rows if r[name_idx] in names]


def compare(sc, what, kinds=None):
    """Returns (problems, timeline, instances, real). problems: list of strings."""
    tl, inst = G.run_model(sc, instances="instances" in what)
    try:
        r = G.run_real(sc, instances="instances" in what)
    except RealCrash as e:
        return [f"crash: {e}"], tl, inst, None
    out = []
    names = None
    if kinds is not None:
        by = {}
        for e in tl.events:
            by.setdefault(e.skill.name, set()).add(e.kind)
        known = set(by)
        names = {n for n, k in by.items() if k & set(kinds)}
        names |= {e.skill.name for e in r.events if e.skill.name not in known}
    if "presses" in what:
        a, b = G.diff([G.press_key_real(p) for p in r.presses], [G.press_key_model(p) for p in tl.presses])
        if a or b:
            out.append(f"button presses (time, skill, job, condition): only in code {sorted(a)[:3]}, only in reference {sorted(b)[:3]}")
        ts = [p[0] for p in r.presses]
        if ts != sorted(ts):
            out.append("button presses are not in time order")
    if "events" in what:
        a, b = G.diff(restrict([G.ev_key_real(e) for e in r.events], 2, names),
                      restrict([G.ev_key_model(e) for e in tl.final], 2, names))
        if a or b:
            out.append(f"events (snapshot, application, skill, condition, snapshots, targets): only in code {sorted(a)[:3]}, only in reference {sorted(b)[:3]}")
    if "instances" in what:
        a, b = G.diff(restrict([G.inst_key_real(e) for e in r.inst], 1, names),
                      restrict([G.inst_key_model(e) for e in inst], 1, names))
        if a or b:
            out.append(f"damage instances (time, skill, condition, target, buffs, debuffs): only in code {sorted(a)[:3]}, only in reference {sorted(b)[:3]}")
        ts = [x[0] for x in r.inst]
        if ts != sorted(ts):
            out.append("damage instances are not in time order")
    return out, tl, inst, r


def shrink(sc, fails, tries=120):
    """Drop presses and settings while the scenario keeps failing."""
    cur = sc
    n = 0

    def ok(c):
        nonlocal n
        n += 1
        try:
            return bool(fails(c))
        except Exception:
            return False
    for k, v in (("downtime", None), ("autos", False), ("trailing", False), ("snap_dots", None), ("fight_start", None)):
        if cur["rb"].get(k) != v:
            c = copy.deepcopy(cur)
            c["rb"][k] = v
            if ok(c):
                cur = c
    size = max(1, len(cur["presses"]) // 2)
    while size >= 1 and n < tries:
        i = 0
        while i < len(cur["presses"]) and n < tries:
            c = copy.deepcopy(cur)
            del c["presses"][i:i + size]
            if c["presses"] and ok(c):
                cur = c
            else:
                i += size
        size //= 2
    return cur


def signature(tl):
    return [(e.snap, e.app, e.skill.name, sorted(e.mod.cond), e.targets) for e in tl.final]


def explore(ctx, opts, n, what, kinds=None, observe=None, label="main", extra=None):
    """n scenarios from opts. observe(ctx, sc, tl, inst, real) counts; extra(sc, tl, inst, real) -> problems."""
    done = 0
    i = 0
    while done < n and i < 3 * n:
        if ctx.stop():
            break
        i += 1
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/{label}/{i}")
        sc = G.gen_scenario(rng, opts)
        if not sc["presses"]:
            continue
        try:
            probs, tl, inst, real = compare(sc, what, kinds)
            if extra and real is not None:
                probs = probs + extra(sc, tl, inst, real)
        except G.SKIP as e:
            ctx.count("skipped: " + (str(e) or type(e).__name__))
            continue
        done += 1
        ctx.count("scenarios")
        ctx.count("scenarios on " + sc["lib"]["kind"] + " libraries")
        ctx.count("events compared", len(tl.final))
        if inst is not None:
            ctx.count("damage instances compared", len(inst))
        if observe:
            observe(ctx, sc, tl, inst, real)
        ctx.seen(signature(tl), nontrivial=len(tl.final) > 1)
        if done <= 3:
            ctx.sample(dict(lib=sc["lib"], job=sc["job"], rb=sc["rb"], presses=len(sc["presses"]),
                            first=[str(x) for x in signature(tl)[:3]]))
        if probs:
            def fails(c):
                p, t2, i2, r2 = compare(c, what, kinds)
                if extra and r2 is not None:
                    p = p + extra(c, t2, i2, r2)
                return p
            small = shrink(sc, fails)
            try:
                msg = (fails(small) or probs)[0]
            except Exception:
                msg = probs[0]
            ctx.violation(f"{msg} [lib={small['lib']} job={small['job']} rb={small['rb']} presses={small['presses'][:6]}]",
                          replay=dict(kind="scenario", scenario=small, what=list(what), kinds=list(kinds) if kinds else None))
    return done


def replay_scenario(ctx, case, extra=None):
    probs, tl, inst, real = compare(case["scenario"], case["what"], case.get("kinds"))
    if extra and real is not None:
        probs = probs + extra(case["scenario"], tl, inst, real)
    for p in probs:
        ctx.violation(p, case)
