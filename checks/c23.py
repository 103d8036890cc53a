"""C23: a rotation read from a CSV file is the rotation that the file lists."""
import csv
import os
import random
import shutil
import tempfile

from vp import gen as G
from vp import model as M
from vp.env import DamageBuilder, SkillModifier, Stats
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils

RULE = ("distinct generated CSV files (column order, header case, optional columns, quoting, line ends, conditions, other jobs, targets); "
        "the populated builder is compared with one populated by hand, event by event")
ASSUMPTIONS = ["the columns Time, skill_name, job_class, skill_conditional exist; a targets column holds names, not only numbers"]


def picture(rb, stats, lib):
    q = rb.get_skill_timing()
    ev = sorted(repr(G.ev_key_real(e)) for e in q.get_q())
    inst = DamageBuilder(stats, lib).get_damage_instances(q)
    return (ev, sorted(repr(G.press_key_real(p)) for p in rb.get_button_press_timing()), sorted(repr(G.inst_key_real(x)) for x in inst))


def fmt_time(ms, rng):
    s = ms / 1000
    k = rng.random()
    if ms % 1000 == 0 and k < 0.4:
        return str(ms // 1000)
    if k < 0.7:
        return f"{s:.3f}"
    return repr(s)


def check(case, seen, tmp):
    sc = case["scenario"]
    rng = random.Random(case["seed"])
    lib = G.get_lib(sc["lib"])
    stats = call(Stats, **sc["stats"])
    cols = ["Time", "skill_name", "job_class", "skill_conditional"]
    with_targets = any(p["targets"] for p in sc["presses"]) or rng.random() < 0.3
    if with_targets:
        cols.append("targets")
    if rng.random() < 0.2:
        cols.append("notes")
    order = list(cols)
    rng.shuffle(order)
    style = rng.choice(["as is", "lower", "upper", "title"])
    head = {c: {"as is": c, "lower": c.lower(), "upper": c.upper(), "title": c.title()}[style] for c in cols}
    path = os.path.join(tmp, "rotation.csv")
    with open(path, "w", newline="") as f:
        w = csv.writer(f, quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]) if rng.random() < 0.5 else csv.QUOTE_MINIMAL,
                       lineterminator=rng.choice(["\n", "\r\n"]))
        w.writerow([head[c] for c in order])
        for p in sc["presses"]:
            row = dict(Time=fmt_time(p["t"], rng), skill_name=p["skill"], job_class=p["job"] or "",
                       skill_conditional=(p["mod"] or {}).get("cond", ""), targets=p["targets"] or "", notes="x")
            w.writerow([row[c] for c in order])

    def by_csv():
        rb = G.make_rb(sc, lib, stats)
        rb2, rows = CSVUtils.populate_rotation_from_csv(rb, path)
        return rb2, rows, picture(rb2, stats, lib)

    def by_hand():
        rb = G.make_rb(sc, lib, stats)
        for p in sc["presses"]:
            c = (p["mod"] or {}).get("cond", "")
            rb.add(p["t"] / 1000, p["skill"], skill_modifier=SkillModifier(with_condition=c) if c else None, job_class=p["job"], targets=p["targets"])
        return picture(rb, stats, lib)
    b = call(by_hand)
    _, rows, a = call(by_csv)
    if len(rows) != len(sc["presses"]):
        return f"{len(rows)} rows read from a file of {len(sc['presses'])}"
    for r, p in zip(rows, sc["presses"]):
        got = (round(float(r.t), 6), r.skill_name, r.job_class or None, r.skill_conditional or "", r.targets or None)
        want = (round(p["t"] / 1000, 6), p["skill"], p["job"], (p["mod"] or {}).get("cond", ""), p["targets"])
        if got != want:
            return f"row read as {got}, written as {want}"
    for n, x, y in zip(("events", "button presses", "damage instances"), a, b):
        d1, d2 = G.diff(x, y)
        if d1 or d2:
            return f"{n} of the CSV rotation differ from adding the same skills by hand: only CSV {d1[:2]}, only by hand {d2[:2]}"
    seen["rows"] = len(rows)
    seen["rows of another job"] = sum(bool(p["job"]) for p in sc["presses"])
    seen["rows with a condition"] = sum(bool((p["mod"] or {}).get("cond")) for p in sc["presses"])
    seen["rows with targets"] = sum(bool(p["targets"]) for p in sc["presses"])
    seen[f"header {style}"] = 1
    return None


def clean(sc):
    for p in sc["presses"]:
        if p["mod"]:
            p["mod"] = {k: v for k, v in p["mod"].items() if k == "cond" and v} or None
    return sc


def run(ctx):
    tmp = tempfile.mkdtemp(prefix="verif_csv_")
    try:
        done = i = 0
        n = ctx.n(220, 2500)
        while done < n and i < 4 * n and not ctx.stop():
            i += 1
            rng = random.Random(f"{ctx.prop}/{ctx.seed}/{i}")
            o = G.Opts(mode="timed", autos=0.3, trailing=0.3, snap=0.1, downtime=0.1, multi=0.2, party=0.3, condp=0.4, modp=0, bonus=0,
                       synth=0.3, length=(1, 20), tie=0.2)
            sc = clean(G.gen_scenario(rng, o))
            if not sc["presses"]:
                continue
            case = dict(scenario=sc, seed=rng.randint(0, 10**6))
            seen = {}
            try:
                try:
                    G.run_model(sc, instances=False)
                except M.Ambiguous:
                    pass
                p = check(case, seen, tmp)
            except (M.NoSpec, M.ForceConflict):
                continue
            except RealCrash as e:
                try:
                    G.run_model(sc)
                except G.SKIP:
                    continue
                p = f"crash: {e}"
            done += 1
            ctx.count("files")
            for k, v in seen.items():
                ctx.count(k, v)
            ctx.seen(case)
            if done < 3:
                ctx.sample(dict(lib=sc["lib"], job=sc["job"], rows=len(sc["presses"]), observed=seen))
            if p:
                ctx.violation(p, case)
        # an absent file and an empty file leave the builder empty
        sc = dict(lib=dict(kind="real", version="7.0", level=100), job="WAR", stats=G.rand_stats(random.Random(1), "WAR", "7.0", 100),
                  rb=dict(snap_dots=None, autos=False, trailing=False, fight_start=None, downtime=None, default_target="Default Target"), presses=[])
        lib = G.get_lib(sc["lib"])
        stats = Stats(**sc["stats"])
        empty = os.path.join(tmp, "empty.csv")
        with open(empty, "w") as f:
            f.write("Time,skill_name,job_class,skill_conditional\n")
        for path in (os.path.join(tmp, "no such file.csv"), empty):
            try:
                rb, rows = call(CSVUtils.populate_rotation_from_csv, G.make_rb(sc, lib, stats), path)
                bad = list(rows) or call(lambda: rb.get_skill_timing().get_q())
                if bad:
                    ctx.violation(f"{os.path.basename(path)} gives {bad}", dict(file=os.path.basename(path)))
            except RealCrash as e:
                ctx.violation(f"crash on {os.path.basename(path)}: {e}", dict(file=os.path.basename(path)))
            ctx.seen(os.path.basename(path))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.need("files", 100)
    ctx.need("rows of another job", 100)
    ctx.need("rows with a condition", 300)
    ctx.need("rows with targets", 300)


def replay(ctx, case):
    tmp = tempfile.mkdtemp(prefix="verif_csv_")
    try:
        p = check(case, {}, tmp)
        if p:
            ctx.violation(p)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
