"""P12: a JSON checkpoint is the profile."""
from .. import persist
from . import p11

ID = "P12"
RUNS = {"quick": (300, 300), "thorough": (10000, 3000)}
RULE = p11.RULE + "; with save_method json"
STATES = p11.STATES
REAL = p11.REAL[:-1] + ["save, load, JSON encoder and decoders"]
STUB = p11.STUB
SHRINK = p11.SHRINK


def plan(rng, tier):
    p = p11.plan(rng, tier)
    if rng.random() < 0.9:  # a profile with a sketch refuses to be saved as JSON
        o = p["opts"]["set"]
        o.pop("structured_options.category.cms", None)
        o.pop("structured_options.row_statistics.unique_count.hashing_method", None)
    return p


def run(plan, env):
    persist.run_history(plan, env, "json", rel=1e-12)
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "loads", 0) > 0
