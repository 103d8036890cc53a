"""Loads the code under test from /repo's working tree."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402

from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.skills.skill import Skill  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.stats import Stats  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder  # noqa: E402,F401
from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder  # noqa: E402,F401

VERSIONS = [("6.55", 90), ("7.0", 90), ("7.01", 90), ("7.05", 90), ("7.1", 90),
            ("7.0", 100), ("7.01", 100), ("7.05", 100), ("7.1", 100)]
JOBS = ["PLD", "WAR", "DRK", "GNB", "DRG", "RPR", "MNK", "SAM", "NIN", "VPR", "BRD", "MCH", "DNC",
        "BLM", "SMN", "RDM", "PCT", "WHM", "SCH", "AST", "SGE"]
NEW_JOBS = {"VPR", "PCT"}  # from 7.0
TANKS = {"PLD", "WAR", "DRK", "GNB"}
HEALERS = {"WHM", "SCH", "AST", "SGE"}
CASTERS = {"BLM", "SMN", "RDM", "PCT"}

_libs = {}


def real_lib(version, level):
    k = (version, level)
    if k not in _libs:
        _libs[k] = create_skill_library(version, level)
    return _libs[k]
