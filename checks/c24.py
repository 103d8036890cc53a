"""C24: a skill library is a pure function of (game version, level)."""
import contextlib
import hashlib
import importlib
import io
import math
import multiprocessing
import random

from checks.c01 import spec_key
from vp import gen as G
from vp.env import CASTERS, HEALERS, JOBS, NEW_JOBS, TANKS, VERSIONS, create_skill_library
from vp.harness import RealCrash, call

RULE = ("distinct histories of library creations and uses; after each creation the whole library (every skill, priority, gauge, combo "
        "breaker) is fingerprinted and compared with the one a fresh process makes for that version and level; plus every potency "
        "entry of the data tables looked up in the libraries, and what the job classes declare compared with the libraries")
ASSUMPTIONS = ["supported versions are 6.55, 7.0, 7.01, 7.05, 7.1 and those after 7.05's successors that bring no data of their own (7.06-7.09, 7.11 on)",
               "data table entries of skills that a version no longer has, and entries that are only terms of a potency, are exempt (listed in the check)"]
LATER = {("7.06", 100): ("7.05", 100), ("7.08", 90): ("7.05", 90), ("7.11", 100): ("7.1", 100), ("7.15", 90): ("7.1", 90), ("7.2", 100): ("7.1", 100)}
MELEE = {"DRG", "RPR", "MNK", "SAM", "NIN", "VPR"}
EXEMPT = {(j, s, p) for j, s, ps in (
    ("DRK", "Living Shadow", ("potency_base", "potency_shadowbringer", "potency_disesteem")),
    ("RPR", "Plentiful Harvest", ("potency_increment",)), ("NIN", "Bunshin", ("potency_melee", "potency_ranged", "potency_area")),
    ("BLM", "Thunder III (dot)", ("potency",)), ("BLM", "Thunder IV (dot)", ("potency",)), ("DRK", "Plunge", ("potency",)),
    ("GNB", "Rough Divide", ("potency",)), ("DRG", "Spineshatter Dive", ("potency",)),
    ("DRG", "Fang and Claw", ("potency_wheeling", "potency_wheeling_no_pos")), ("DRG", "Wheeling Thrust", ("potency_fc", "potency_fc_no_pos")),
    ("MNK", "Demolish (dot)", ("potency",)), ("MNK", "Bootshine", ("potency_leaden_fist",)), ("SAM", "Kaeshi: Higanbana", ("potency",)),
    ("SAM", "Shoha II", ("potency",)), ("NIN", "Mug", ("potency",)), ("NIN", "Aeolian Edge", ("potency_increment_kaz",)),
    ("NIN", "Huraijin", ("potency",)), ("VPR", "Combo Base", ("potency_no_venom", "potency_venom")), ("BRD", "Mage's Ballad", ("potency",)),
    ("BRD", "Army's Paeon", ("potency",)), ("BRD", "The Wanderer's Minuet", ("potency",)), ("BLM", "Thunder III", ("potency_thundercloud",)),
    ("BLM", "Thunder IV", ("potency_thundercloud",)), ("BLM", "Flare", ("potency_enhanced",)), ("VPR", "Dread Fangs", ("potency",)),
    ("VPR", "Dread Maw", ("potency",)), ("VPR", "Dreadwinder", ("potency",)), ("VPR", "Pit of Dread", ("potency",)),
    ("PLD", "Requiescat", ("potency",)), ("DRG", "Spiral Blow", ("potency",)), ("BLM", "High Thunder (dot)", ("potency",)),
    ("BLM", "High Thunder II (dot)", ("potency",))) for p in ps}


def make(version, level):
    """-> (library, what creating it printed)"""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            lib = create_skill_library(version, level) if level is not None else create_skill_library(version)
    except BaseException as e:  # noqa
        raise RealCrash(e)
    return lib, buf.getvalue()


def image(lib):
    """job -> {part: digest} of everything the library answers."""
    out = {}
    for j in sorted(lib.get_jobs()):
        d = {}
        for n in G.skill_names(lib, j):
            if n.startswith("Wait "):  # a thousand per job
                sk = lib.get_skill(n, j)
                d[n] = (sk.name, sk.is_GCD, sk.timing_spec.animation_lock, sk.timing_spec.base_cast_time)
                continue
            d[n] = hashlib.sha1(repr(spec_key(lib.get_skill(n, j))).encode()).hexdigest()
        for n, v in (("priority", lib.get_status_effect_priority(j)), ("breakers", lib.get_all_combo_breakers(j)),
                     ("resources", lib.get_all_resource_settings(j))):
            d["<" + n + ">"] = hashlib.sha1(repr(spec_key(v)).encode()).hexdigest()
        out[j] = d
    return out


def differ(a, b):
    if set(a) != set(b):
        return f"jobs {sorted(set(a) ^ set(b))}"
    for j in a:
        if a[j] != b[j]:
            d = [n for n in sorted(set(a[j]) | set(b[j])) if a[j].get(n) != b[j].get(n)]
            return f"{j}: {d[:6]}"
    return None


def _fresh(conn, k):
    try:
        lib, _ = make(*k)
        conn.send(("ok", image(lib), lib.get_version(), lib.get_level()))
    except RealCrash as e:
        conn.send(("crash", str(e), None, None))
    conn.close()


def fresh(k):
    mp = multiprocessing.get_context("fork")
    a, b = mp.Pipe(False)
    p = mp.Process(target=_fresh, args=(b, k))
    p.start()
    b.close()
    r = a.recv()
    p.join()
    if r[0] == "crash":
        raise RealCrash(RuntimeError(f"creating library {k}: {r[1]}"))
    return r[1:]


def static(ctx, k, img):
    """what must be in the library of (version, level), whatever the data"""
    v, l = k
    want = {j for j in JOBS if not (j in NEW_JOBS and float(v) < 7.0)}
    if set(img) != want:
        return f"library {k} has jobs {sorted(set(img) ^ want)} too many or too few"
    return None


def tables(ctx, lib, k):
    v, l = k
    role = {**{j: "tank" for j in TANKS}, **{j: "healer" for j in HEALERS}, **{j: "caster" for j in CASTERS}, **{j: "melee" for j in MELEE}}
    out = []
    for j in lib.get_jobs():
        try:
            m = importlib.import_module(f"ama_xiv_combat_sim.simulator.game_data.class_skills.{role.get(j, 'ranged')}.{j.lower()}_data")
        except ImportError:
            ctx.count("jobs without a data module")
            continue
        tabs = [x.skills for x in vars(m).values() if isinstance(getattr(x, "skills", None), dict) and hasattr(x, "get_skill_data")]
        by = {}

        def add(sk):
            by.setdefault(sk.name, []).append(sk)
            for fu in G.all_follow_ups(sk):
                add(fu.skill)
        for n in G.skill_names(lib, j):
            if not n.startswith("Wait "):
                add(lib.get_skill(n, j))
        for tab in tabs:
            for name, levels in tab.items():
                for p, vals in levels.get(l, {}).items():
                    ks = [x for x in vals if float(x) <= float(v)]
                    if not ks or not p.startswith("potency") or (j, name, p) in EXEMPT:
                        continue
                    want = vals[max(ks, key=float)]
                    pots = set()
                    for s in by.get(name, ()):
                        for d in G.values(s.damage_spec):
                            if d is not None:
                                pots |= {d.potency, d.use_min_potency}
                    ctx.count("potencies looked up in the tables")
                    if want not in pots:
                        out.append(f"{j} {name} at {k}: the table's {p} is {want}, the skill's potencies are {sorted(x for x in pots if x is not None)}")
    return out


def declared(ctx, lib, k):
    """the library answers what the classes describing the jobs declare for its version and level"""
    try:
        from ama_xiv_combat_sim.simulator.game_data.generic_job_class import GenericJobClass
    except ImportError:
        return []
    out = []
    for cls in GenericJobClass.__subclasses__():
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                c = cls(version=k[0], level=k[1])
                j, pr, br, rs = c.get_job_class(), c.get_status_effect_priority(), c.get_combo_breakers(), c.get_resources()
                sk = {s.name: s for s in c.get_skills()}
        except Exception:  # noqa: not one of the classes this part can read
            ctx.count("job classes not read")
            continue
        if j not in lib.get_jobs():
            continue
        ctx.count("job declarations compared with the library")
        if tuple(pr or ()) != tuple(lib.get_status_effect_priority(j)):
            out.append(f"{j} at {k}: declared effect priority {pr}, the library has {lib.get_status_effect_priority(j)}")
        if {g: tuple(b) for g, b in br or ()} != {g: tuple(b) for g, b in lib.get_all_combo_breakers(j).items()}:
            out.append(f"{j} at {k}: declared combo breakers {br}, the library has {lib.get_all_combo_breakers(j)}")
        want = {n: repr(spec_key(r)) for n, r in rs}
        got = {n: repr(spec_key(r)) for n, r in lib.get_all_resource_settings(j).items()}
        if want != got:
            out.append(f"{j} at {k}: declared resources {want}, the library has {got}")
        for n, s in sk.items():
            if not lib.has_skill(n, j):
                out.append(f"{j} at {k}: the declared skill {n} is not in the library")
            elif repr(spec_key(s)) != repr(spec_key(lib.get_skill(n, j))):
                out.append(f"{j} at {k}: {n} in the library is not as declared")
    return out


def lookup(ctx, seed):
    """the table lookup itself, over generated tables"""
    try:
        from ama_xiv_combat_sim.simulator.game_data.specific_skills import SpecificSkills
    except ImportError:
        return None
    rng = random.Random(seed)
    vs = ["6.55", "7.0", "7.01", "7.05", "7.1"]
    sp = SpecificSkills()
    tab = {}
    for i in range(rng.randint(1, 5)):
        tab[f"S{i}"] = {l: {p: {x: rng.randint(1, 900) for x in rng.sample(vs, rng.randint(1, 5))} for p in ("potency", "potency_no_combo", "duration")}
                        for l in rng.sample([90, 100], rng.randint(1, 2))}
        sp.add_skill_data(f"S{i}", tab[f"S{i}"])
    for _ in range(20):
        v, l = rng.choice(vs + ["7.2", "7.06"]), rng.choice([90, 100])
        n, p = rng.choice(list(tab)), rng.choice(["potency", "duration"])
        if l not in tab[n]:
            continue
        if rng.random() < 0.5:
            sp.set_version(v), sp.set_level(l)
        else:
            sp.set_level(l), sp.set_version(v)
        ks = [x for x in tab[n][l][p] if float(x) <= float(v)]
        want = tab[n][l][p][max(ks, key=float)] if ks else None
        try:
            got = sp.get_skill_data(n, p)
        except Exception as e:  # noqa
            if want is None:
                continue
            return f"lookup of {tab[n][l][p]} at {v} raised {e!r}, expected {want}"
        ctx.count("generated table lookups")
        if got != want:
            return f"lookup of {tab[n][l][p]} at {v} gives {got}, expected {want}"
    return None


def history(ctx, case, canon=None):
    """creates and uses libraries as the case says; every creation must come out as in a fresh process"""
    rng = random.Random(case["seed"])
    kept = []
    canon = {} if canon is None else canon

    def ref(k):
        k = LATER.get(k, k)
        if k[1] is None:
            k = (k[0], 100 if float(k[0]) >= 7 else 90)
        if k not in canon:
            img, v, l = fresh(k)
            canon[k] = img
            p = static(ctx, k, img)
            if p:
                raise AssertionError(p)
        return canon[k]
    for step, k in enumerate(case["keys"]):
        k = tuple(k)
        want = ref(k)
        lib, said = make(*k)
        if said.strip():
            return f"creating library {k} (step {step}) complained: {said.strip()[:200]}"
        if lib.get_version() != k[0] or lib.get_level() != (k[1] if k[1] is not None else (100 if float(k[0]) >= 7 else 90)):
            return f"library {k} says it is {lib.get_version()}/{lib.get_level()}"
        got = image(lib)
        ctx.count("libraries fingerprinted")
        ctx.count("skills fingerprinted", sum(len(x) for x in got.values()))
        d = differ(got, want)
        if d:
            return f"library {k} created as step {step} of {case['keys']} differs from a fresh one at {d}"
        kept.append((k, lib))
        if rng.random() < 0.5:  # what was asked for is the caller's to change
            for j in lib.get_jobs():
                for d in (call(lib.get_all_combo_breakers, j), call(lib.get_all_resource_settings, j)):
                    if isinstance(d, dict):
                        d.clear()
                        d["Mine"] = ()
            ctx.count("answers changed by the caller")
            d = differ(image(lib), want)
            if d:
                return f"library {k} changed with the dictionaries it had handed out: {d}"
        if rng.random() < 0.6 and k in VERSIONS:
            use(rng, k, lib)
        if len(kept) > 1 and rng.random() < 0.5:
            k2, l2 = rng.choice(kept)
            d = differ(image(l2), ref(k2))
            ctx.count("earlier libraries checked again")
            if d:
                return f"library {k2} changed after later creations and uses {case['keys'][:step + 1]}: {d}"
    return None


def use(rng, k, lib):
    """press things on this very library object"""
    o = G.Opts(synth=0, length=(3, 10), versions=[k], autos=0.5)
    for _ in range(2):
        sc = G.gen_scenario(rng, o)
        key = tuple(k)
        from vp import env
        old = env._libs.get(key)
        env._libs[key] = lib
        try:
            G.run_real(sc)
        except RealCrash:
            pass  # other properties
        finally:
            if old is None:
                env._libs.pop(key, None)
            else:
                env._libs[key] = old


def run(ctx):
    canon = {}
    for i in range(ctx.n(5, 40)):
        if ctx.stop():
            break
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/{i}")
        pool = VERSIONS + list(LATER) + [(v, None) for v in ("6.55", "7.0", "7.1")]
        keys = [rng.choice(pool) for _ in range(rng.randint(3, 6))]
        if rng.random() < 0.6:
            keys.append(keys[0])
        if i == 0:  # every library is met
            keys = [x for n, x in enumerate(pool) if ctx.mine(n)] + keys[:2]
        case = dict(kind="history", seed=f"{ctx.seed}/{i}", keys=keys)
        try:
            p = history(ctx, case, canon)
        except RealCrash as e:
            p = f"crash: {e}"
        except AssertionError as e:
            p = str(e)
        ctx.seen(keys)
        ctx.count("creation histories")
        if i < 2:
            ctx.sample(case)
        if p:
            ctx.violation(p, case)
    for i, k in enumerate(VERSIONS):
        if ctx.mine(i):
            try:
                lib, _ = make(*k)
                for p in (tables(ctx, lib, k) + declared(ctx, lib, k))[:3]:
                    ctx.violation(p, dict(kind="tables", key=k))
            except RealCrash as e:
                ctx.violation(f"crash: {e}", dict(kind="tables", key=k))
            ctx.seen(("tables", k))
    for i in range(ctx.n(60, 1000)):
        s = f"{ctx.seed}/lookup/{i}"
        p = lookup(ctx, s)
        if p:
            ctx.violation(p, dict(kind="lookup", seed=s))
            break
        ctx.seen(s)
    ctx.need("libraries fingerprinted", 60)


def replay(ctx, case):
    try:
        if case["kind"] == "lookup":
            p = lookup(ctx, case["seed"])
        elif case["kind"] == "tables":
            lib = make(*case["key"])[0]
            r = tables(ctx, lib, tuple(case["key"])) + declared(ctx, lib, tuple(case["key"]))
            p = r[0] if r else None
        else:
            p = history(ctx, case)
    except RealCrash as e:
        p = f"crash: {e}"
    except AssertionError as e:
        p = str(e)
    if p:
        ctx.violation(p, case)
