"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "ama_xiv_combat_sim/simulator/"
RB = S + "timeline_builders/rotation_builder.py"
DB = S + "timeline_builders/damage_builder.py"
EV = S + "timeline_builders/snapshot_and_application_events.py"
SE = S + "trackers/status_effect_tracker.py"
CT = S + "trackers/combo_tracker.py"
JR = S + "trackers/job_resource_tracker.py"
CH = S + "trackers/channeling_tracker.py"
DT = S + "trackers/damage_tracker.py"
SK = S + "skills/skill.py"
SL = S + "skills/skill_library.py"
SIM = S + "damage_simulator.py"
CD = S + "calcs/compute_damage_utils.py"
SF = S + "calcs/stat_fns.py"
UT = S + "utils.py"
KT = "ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py"
CSV = S + "rotation_import_utils/csv_utils.py"
LB = S + "game_data/lb_skills/add_lbs_to_skill_library.py"
GEN = S + "game_data/generic_skills/add_generic_skills_to_library.py"
GJ = S + "game_data/generic_job_class.py"
CS = S + "game_data/class_skills/"
CL = S + "skills/create_skill_library.py"
EX = "ama_xiv_combat_sim/example_rotations/"
RA = "ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique
P = []


def p(id_, title, statement, over, qtext, why, files, mech, technique):
    P.append(dict(id=id_, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique))


p("C01", "Asking again gives the same answer and leaves the inputs alone",
  "Laying out a rotation, deriving its damage instances and computing its expected damage are pure: asking again, adding skills in several instalments with the timeline requested in between, or sharing stats, library and modifier objects with other builders gives the same result as one fresh run. Nothing the caller handed in (library, stats, modifiers, downtime windows) is changed. The same seed gives the same simulated damage.",
  ["histories", "inputs", "configurations"],
  "for every rotation, every interleaving of additions and requests on one or more builders, and every choice of builder settings",
  "tests build each rotation once on a fresh builder; they never ask twice, interleave additions with requests, or share objects between builders",
  [RB, DB, SIM, EV], [("timeline and trackers rebuilt on each request", RB + ":get_skill_timing"), ("fresh trackers per request", DB + ":get_damage_instances")],
  "runtime monitor: repeated/interleaved/shared runs of the real code compared, plus before/after fingerprints of every object handed in")

p("C02", "Sequenced skills are pressed as early as the pacing rules allow",
  "A skill added in sequence is pressed at the first moment allowed by the animation lock and cast of the previous press and, for a GCD, by the recast of the previous GCD. Cast and recast times are shortened by the speed stat, by job traits, by haste effects active at the press and by flat reductions, each truncated to 10 ms; casts never take less than zero and standard 2.5 s GCDs never recast faster than 1.5 s; skills exempt from speed or haste are not shortened by them.",
  ["inputs", "configurations"],
  "for every sequence of skills, every speed stat, level, version and job, and every combination of active haste and reduction effects",
  "tests pin a few dozen hand-computed rotations at two or three speed values and never vary the mix of cast, lock, recast and haste",
  [RB, SF, UT, SE], [("next press time", RB + ":__process_q_sequence"), ("speed to time", SF + ":get_time_using_speed_stat"), ("10 ms truncation", UT + ":truncate_to_digit")],
  "runtime monitor: online reference model of the pacing rules against button presses of random rotations")

p("C03", "Every press yields exactly one event, at its own snapshot and application times",
  "Every skill used, whether at a given time or in sequence, is logged exactly once as a button press and produces exactly one event, which snapshots half a second before its cast ends (at once for shorter or no casts) and applies after cast and application delay, less the half second for casts. The event keeps the skill, the targets and the conditions of its own press, and presses given out of order come out in time order.",
  ["inputs", "histories"],
  "for every list of timed and sequenced presses in any order, with any modifiers and targets",
  "tests compare whole timelines for hand-written rotations with mostly ordered presses; losing or swapping an event for other shapes goes unseen",
  [RB, EV], [("timed presses", RB + ":__process_q_timed"), ("event queue", EV)],
  "runtime monitor: exactly-once and timing check of the recorded event log against a reference model")

p("C04", "Follow-ups land when declared, on the right targets, with the right snapshot",
  "Each follow-up of a used skill happens exactly once per use and target it applies to, at its declared delay after the parent applies. It takes its buffs and its debuffs from the parent's snapshot or from its own application, separately, as declared, and only the follow-ups chosen by the conditions of that press happen.",
  ["inputs", "histories"],
  "for every skill with follow-ups, any delays and snapshot flags, any conditions and targets, and any other effects starting or ending in between",
  "tests use a handful of follow-ups whose snapshot flags are never distinguished by an effect that starts or ends between snapshot and application",
  [RB, DB, EV], [("follow-ups scheduled", RB + ":_process_follow_up_skills"), ("snapshot vs application", DB + ":get_damage_instances")],
  "runtime monitor: event log and damage instances of follow-ups compared with a reference model")

p("C05", "Damage over time ticks every 3 s for its duration, reapplied not stacked",
  "A damage-over-time effect ticks every 3 s from its application until its duration is over, on each target separately, and reapplying it, or one of the same name, ends the old one, never running two at once. Every tick carries the buffs and debuffs its latest application snapshotted. With server-tick alignment every tick falls on the given tick grid, and ignoring trailing dots drops exactly the ticks after the last event that is not a tick.",
  ["inputs", "histories", "configurations"],
  "for every set of applications and refreshes on every set of targets, every duration, and every alignment and trailing setting",
  "tests refresh a dot once or twice on one target with one alignment; the boundaries between refresh, expiry and tick are not sampled",
  [RB, DB], [("tick schedule", RB + ":__get_base_dot_timings and the dot processing"), ("trailing dots", RB + ":get_skill_timing")],
  "runtime monitor: complete tick log compared with a reference schedule")

p("C06", "Auto attacks follow the weapon delay for the whole fight",
  "With autos enabled, auto attacks start with the first damage and repeat every weapon delay as long as they land before the last event, each exactly once. The delay is shortened by the job's trait and by exactly those auto-haste effects active at that time and applicable to the auto, and an effect that ends or is removed stops counting at once. Each is the job's own auto skill on the target of the latest press.",
  ["inputs", "histories", "configurations"],
  "for every rotation, weapon delay, job, fight start, and every pattern of auto-haste effects starting, ending, being replaced or removed",
  "tests cover a few short rotations with at most one haste effect",
  [RB, SE, UT], [("auto schedule", RB + ": auto attack generation"), ("auto haste", SE)],
  "runtime monitor: complete auto log compared with a reference schedule")

p("C07", "No auto attack fires during a cast or a channel",
  "While a timed skill is being cast or channeled no auto attack starts; one that falls due waits for the end of that period and the later ones follow from there. The reported no-auto periods are exactly the casts and the channels, a channel ending early when a skill that interrupts it is used.",
  ["inputs", "histories", "configurations"],
  "for every timed rotation with casts and channels, every interruption pattern and every auto timing",
  "tests list the periods of a few rotations; the interaction of overlapping casts, channels, interruptions and haste is not sampled",
  [RB, CH, UT], [("channel tracking", CH), ("periods", RB + ":get_no_auto_periods")],
  "runtime monitor: reported periods and auto log checked against casts and channels observed in the press log")

p("C08", "Time zero is the first damage, or the given fight start",
  "Without a given fight start the earliest damage of the rotation lands at time zero and everything else keeps its distance from it; with one, that instant is time zero. Pressing the whole rotation at any other absolute times changes nothing without a given start and shifts everything by exactly as much with one.",
  ["inputs", "configurations"],
  "for every rotation, every offset of its presses (negative ones included) and every fight start",
  "tests check single rotations at one offset",
  [RB, EV], [("re-basing of the timeline", RB + ":get_skill_timing")],
  "runtime monitor: metamorphic shift comparison plus reference origin")

p("C09", "Downtime removes exactly the damage inside its windows",
  "A hit disappears exactly when it snapshots or lands inside one of its target's downtime windows (start included, end excluded) whose damage class, if given, matches; every other one stays unchanged. Windows may be given for all targets or per target, auto attacks resume after a window at the right time, and effects that carry no damage are kept.",
  ["inputs", "configurations"],
  "for every rotation and every set of non-overlapping windows, per target or global, with or without damage class, with events at the window edges",
  "tests use one or two windows with single-target rotations, never at the edges of events and never per target with staggered hits",
  [RB], [("window filter", RB + ": downtime windows processing")],
  "runtime monitor: surviving events compared with a reference filter over the same rotation")

p("C10", "Every hit carries exactly the effects active for it when it snapshots",
  "Every damage instance carries exactly the buffs on the player and the debuffs on its own target that are active at its snapshot (or its application, where declared) and apply to that skill, and their combined effect is the product of the multipliers and the sum of the rates and stats. Allow and deny lists, priorities and limited uses are respected, and effects that select a skill's condition select it for exactly the hits they cover.",
  ["inputs", "histories"],
  "for every rotation, every overlap of effects, and every order of application, expiry and consumption",
  "tests assert effects for hand-written rotations with few overlapping effects and one target",
  [DB, SE, EV], [("effects compiled per event", DB + ":get_damage_instances"), ("active effects", SE + ":compile_buffs/compile_debuffs")],
  "runtime monitor: every damage instance of random fights compared with a reference model")

p("C11", "Status effects last, stack, extend and are consumed as declared",
  "An effect is active from its application until exactly its declared duration later; reapplying it extends or refreshes up to the declared maximum, an extend-only effect never starts one, and limited uses are consumed one per covered skill until none are left. Effects declared to expire or clear others do so at that moment and leave all others alone, separately for every target.",
  ["histories", "inputs"],
  "for every history of applying, extending, consuming, expiring and clearing effects, at every instant including 1 ms around each expiry",
  "tests replay short fixed histories and do not probe the boundaries or combinations of limits, lists and expiry",
  [SE, S + "specs/status_effect_spec.py"], [("active effect table", SE + ":add_to_status_effects"), ("expiry", SE + ":expire_status_effects")],
  "runtime monitor: tracker driven through random histories, state compared after every step")

p("C12", "A combo action succeeds exactly after its predecessor, in time and unbroken",
  "A combo action succeeds exactly if one of its predecessors was the last successful action of its combo group at most 30 s before and nothing broke that group since, or if it starts a combo, always succeeds, or is forced. A failed combo gets the no-combo variant of the skill and resets its group; breaking groups follows the declared breakers.",
  ["histories", "inputs"],
  "for every sequence of combo actions of every group, at every spacing including 1 ms around the limit",
  "tests run single combo chains; interleavings of groups, breakers, conditions and the 30 s limit are not sampled",
  [CT, DB, RB], [("last combo action per group", CT + ":compile_and_update_combo")],
  "runtime monitor: tracker histories and end-to-end rotations compared with a reference automaton")

p("C13", "Job gauges never exceed their maximum, never go negative, expire on time",
  "The amount of every job gauge is always between zero and its maximum and equals what was gained minus what was spent and expired; a gain lives for its own duration or the gauge's expiry, which counts from the first gain of an empty gauge and is refreshed only where declared, and spending everything empties it. A skill sees the gauge as of its snapshot or application, as declared, and only listed skills see it.",
  ["histories", "inputs"],
  "for every history of gains and spends at every instant, including 1 ms around each expiry",
  "tests check short fixed histories with one gauge",
  [JR, DB, RB], [("gauge ledger", JR + ":add_resource/compile_job_resources")],
  "runtime monitor: conservation check over random gauge histories and end-to-end rotations")

p("C14", "The most specific applicable entry of a conditional skill is used",
  "Where a skill declares different behaviour for different sets of conditions, a use gets the entry with the largest set of conditions that all hold, and the default entry when none does. The order, spacing and repetition in which conditions are written never matter.",
  ["inputs"],
  "for every set of declared entries and every set of conditions in force",
  "tests sample a few condition combinations of a few skills",
  [SK, UT, S + "skills/skill_modifier.py"], [("best key", UT + ":get_best_key"), ("canonical conditions", UT + ":canonicalize_condition")],
  "runtime monitor: generated queries against an independent selection oracle")

p("C15", "The logged bonus percentage tells whether the positional was hit",
  "When a hit is given the bonus percentage of the combat log, a skill with a positional gets the outcome (positional hit or missed, combo or not) whose potency explains that percentage under the other conditions in force, and zero percent means a missed positional. A percentage that nothing explains, or none given, leaves the given conditions as they are.",
  ["inputs"],
  "for every positional skill of every version and every percentage, including ones that no outcome explains",
  "tests check a few percentages of a few skills",
  [UT, RB, DB, SK], [("positional inference", UT + ":get_positional_condition")],
  "runtime monitor: every positional skill queried with percentages, compared with the percentages its potencies imply")

p("C16", "Base damage follows the published formulas, truncation included",
  "The base damage of a hit is the published formula of potency, weapon damage, main stat with its bonuses and multipliers, determination, tenacity, speed, traits and damage multipliers for the skill's damage class, job, version and level, each factor truncated as published. The four ranges (normal, crit, direct hit, both) are within 5 percent of it with the crit and direct hit multipliers, and zero-potency hits deal nothing.",
  ["inputs", "configurations"],
  "for every set of stats, job, version, level, damage class, potency, modifier and combination of buffs and debuffs",
  "tests pin a few dozen stat sets against logged values; each factor's truncation boundary is not sampled",
  [CD, SF, S + "calcs/compute_damage_utils.py", S + "stats.py", S + "processed_stats.py", S + "game_data/game_consts.py", S + "game_data/job_class_fns.py"],
  [("damage formula", CD), ("stat factors", SF)],
  "runtime monitor: damage of random hits compared with independent exact-arithmetic formulas")

p("C17", "Crit and direct hit rates stay within 0 and 1; forced and forbidden win",
  "The crit and direct hit rates of a hit are the stat's base rate plus the rates of its buffs and debuffs, never above 100 percent, exactly 1 when the skill, its modifier or an effect forces it and exactly 0 when forbidden; contradictory demands are refused. When a guaranteed crit or direct hit meets a rate bonus, the surplus turns into the published extra damage and nothing else changes.",
  ["inputs", "configurations"],
  "for every set of stats and every combination of forcing, forbidding and bonus sources",
  "tests check each source alone",
  [CD, SE, DB], [("rates", CD + ":get_crit_rate_and_dh"), ("forced outcomes combined", CD)],
  "runtime monitor: rates of random source combinations compared with an oracle")

p("C18", "Simulated damage is possible damage, with the declared odds",
  "Every simulated sample of every hit lies in the damage range of its own crit and direct-hit outcome, for each simulation run. Outcomes occur with the declared rates, independently between hits and runs, and damage is uniform over its range.",
  ["inputs", "schedules"],
  "for every fight and every sequence of random numbers",
  "tests compare averages of a few fights with a loose tolerance",
  [SIM, DT], [("sampling", SIM), ("recorded samples", DT)],
  "runtime monitor: every sample range-checked; frequency, uniformity and independence monitors at 7 sigma")

p("C19", "Expected damage, variance, totals and DPS agree with each other",
  "The expected damage and standard deviation of each hit are those of its declared ranges and rates; totals are the sums over hits, DPS is the total over the fight's length from first to last damage, and every reported aggregate agrees with the recorded samples. This holds for any number of hits, none included, with any number of simulation runs.",
  ["inputs", "configurations"],
  "for every fight, from no damage at all to thousands of hits",
  "tests check selected totals of small fights",
  [SIM, DT, CD], [("statistics", DT), ("dps", SIM)],
  "runtime monitor: conservation check, every aggregate recomputed from the recorded ranges and samples")

p("C20", "The per-skill report lists every hit once, with its own numbers",
  "The per-skill report has exactly one row for each damage instance, in time order, with its application and snapshot times, skill, potency, damage class, conditions, effects and target, and its expected damage. Rows of the report and the simulated totals describe the same hits.",
  ["inputs"],
  "for every rotation and every skill of every job",
  "tests compare columns of a few rotations",
  [SIM, DT, S + "trackers/damage_tracker.py"], [("report rows", SIM + ":get_per_skill_damage")],
  "runtime monitor: report rows compared with the reference event log and damage formulas")

p("C21", "A skill on several targets hits each of them once, with the declared falloff",
  "A skill used on several targets hits every named target exactly once, the first with its full potency and the others with the declared reduction, in order of time and each with the debuffs on that target. Follow-ups declared for the primary target reach only the first; damage over time reaches all.",
  ["inputs", "configurations"],
  "for every area skill of every version, every number and order of targets up to 10, and every condition",
  "tests use two or three targets and few skills",
  [SK, DB, RB], [("falloff variants", SK + ":__process_aoe_dropoff"), ("per-target instances", DB + ":get_damage_instances")],
  "runtime monitor: per-target hit log compared with the reference, every dropoff skill exercised on 2-10 targets")

p("C22", "A kill time is the moment the party's damage first reaches the boss's HP",
  "Each estimated kill time is the time of the first hit at which the accumulated damage of all rotations and limit breaks, in time order, reaches the boss's HP, and no kill is reported when it never does. Every trajectory is made of one possible sample for each hit of each rotation, no hit missing or counted twice.",
  ["inputs", "schedules"],
  "for every party of rotations, limit breaks, HP value and sequence of random numbers",
  "tests check one or two parties at a tolerance",
  [KT, LB, SIM], [("trajectory accumulation", KT + ":estimate_kill_time"), ("limit break damage", LB)],
  "runtime monitor: each returned trajectory replayed hit by hit against the party's damage ranges (conservation, ordering)")

p("C23", "A rotation read from a file is the rotation the file lists",
  "Importing a rotation from a CSV file gives exactly the rotation made by adding each of its rows by hand, with its time, skill, job, conditions and targets, regardless of column order, header case, optional columns and row order. The rotation is added to what the builder already holds and the file is left as it is.",
  ["inputs"],
  "for every well-formed file",
  "tests read a few fixed files",
  [CSV, RB], [("row parsing", CSV)],
  "runtime monitor: generated files imported and compared event by event with hand-built rotations")

p("C24", "A skill library depends only on its game version and level",
  "The library made for a game version and level is always the same, whatever libraries were made or used before it in the process, and libraries already made never change. Every value comes from the newest data not newer than the version, at that level, and without a level the version's own cap is used; unsupported combinations are refused.",
  ["histories", "configurations"],
  "for every order of creating and using libraries of any versions and levels in one process",
  "tests create each library once, in a fixed order",
  [CL, GJ, SL, CS], [("versioned data lookup", GJ + ":get_skill_data"), ("library creation", CL)],
  "runtime monitor: whole-library fingerprints over random creation histories against fresh-process fingerprints")

p("C25", "Every listed skill works, alone and under every condition it declares",
  "Every skill of every job's library can be used by itself and under each condition it declares: it is laid out, turned into damage and simulated without failing, as its declaration says, and a wait takes exactly its time. Every combo predecessor, and every skill, effect or gauge that an effect, a gauge or a priority refers to, exists in some version; every job has its waits, potions, deaths and limit breaks for its version, and job mechanics that scale a skill by a state do so in every variant of the skill and reach every skill with a variant for that state; failing a combo or a positional never makes a hit stronger.",
  ["inputs", "configurations"],
  "for every version, level, job, skill and condition",
  "tests exercise part of the skills of each job, each in one rotation",
  [CS, SL, GEN, LB, SK], [("skill definitions", CS), ("generic skills", GEN), ("limit breaks", LB)],
  "runtime monitor: exhaustive use of every (version, level, job, skill, condition) on the real code with crash and reference monitors")

p("C26", "The example rotations are what their data says and simulate end to end",
  "Every example rotation can be obtained for every version and level it lists, consists of exactly the presses of its data with each party skill added once, is computed for the stats at that version and level, and simulates to the damage that its presses imply. Unless asked otherwise it comes with auto attacks (but for three healers) and without the ticks trailing its last skill; asking for one never changes another.",
  ["configurations", "histories"],
  "for every example rotation, supported version and level, in any order of asking",
  "tests run each rotation once at one version with a wide tolerance",
  [EX + "example_rotation_utils.py", EX + "specific_rotations.py", EX], [("rotation tables", EX)],
  "runtime monitor: presses, events, instances and damage of every example compared with the reference run of its data")

p("C27", "Rotation analysis helpers report what the runs contain",
  "The damage snapshotted up to a time, asked for alone or at regular intervals, is the sum of exactly the hits whose snapshot is not later than it. The best-of-k statistics are those of the maximum of k draws from the given runs.",
  ["inputs"],
  "for every report and every time, including the exact times of hits, and every set of runs and k",
  "there are no tests of these helpers",
  [RA, UT], [("analysis helpers", RA)],
  "runtime monitor: helper results recomputed from the report and compared with the exact distribution")

p("C28", "Dying clears everything; weakness lasts exactly as declared",
  "After a death the player has no buffs, gauges or combos left, so that everything afterwards comes out exactly as if the fight had started there, while the enemies keep theirs. Weakness and brink of death additionally reduce the main stat to 75 and 50 percent for exactly 100 s from that moment and never add up. Dying itself takes no time.",
  ["inputs", "histories"],
  "for every rotation of every job before and after the death, including dying again",
  "tests cover a few rotations with one buff",
  [GEN, SE, CT, JR, RB, DB], [("death skills", GEN), ("clearing", SE + ", " + CT + ", " + JR)],
  "runtime monitor: metamorphic comparison of the fight after a death with the same fight without a past")

p("C29", "Party skills of other jobs help the player and do nothing else",
  "Every skill with a party effect can be used by another job of the party: its effect reaches the player's hits, it deals none of the player's damage, it is logged under its own job, and without conditions it acts as declared for use by other jobs. A skill reports having a buff, a debuff or a party effect exactly if it or one of its follow-ups has one under some condition.",
  ["inputs", "configurations"],
  "for every party skill of every job, every player job, version and level, in any rotation",
  "tests check a few party skills of four jobs",
  [RB, SK, CS, DB], [("default condition for other jobs", RB + ":get_default_skill_modifier"), ("effect flags", SK)],
  "runtime monitor: every party skill used by other jobs, effects observed on the player's hits; rotations compared with the reference")

NOTE = {
    "C18": "Statistical monitors alarm at 7 sigma; range checks are exact.",
    "C22": "Trajectories are checked exactly; their distribution only through C18.",
    "C24": "Trusts the data tables themselves: values are not compared with the game.",
    "C25": "Enumerates every skill and declared condition; trusts the declared potencies.",
}
GENERIC = "Exploration: holds on every execution observed (counts in the evidence file); the oracle is an independent reference written from the property; inputs whose outcome the property leaves open (e.g. order of simultaneous events) are skipped and counted. "


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
                                    quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
                                    anchors=dict(files=list(dict.fromkeys(x["files"])),
                                                 mechanism=[dict(name=a, where=b) for a, b in x["mech"]], hook_needed=None))) + "\n")
    cmd = "PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python check.py %s --tier %s"
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas'", checks=[], not_applicable=[],
             notes="No hooks in /repo are needed: every monitor observes public interfaces. Sanitizers and race detectors have nothing to watch: the project is single-threaded pure Python.")
    for x in P:
        m["checks"].append(dict(property=x["id"], quick_cmd=cmd % (x["id"], "quick"), thorough_cmd=cmd % (x["id"], "thorough"),
                                technique=x["technique"], level="exploration", level_note=GENERIC + NOTE.get(x["id"], "")))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
