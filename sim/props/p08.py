"""P08: looking at a profile never changes it."""
import copy
import io

from .. import canon, fleet, gen
from ..core import Violation, call
from . import p01, p07

ID = "P08"
RUNS = {"quick": (700, 300), "thorough": (10000, 3000)}
RULE = (
    "one run = the same delivery and merge history executed in two worlds: in one the profiles are observed at seeded moments (reports in every format, "
    "with caller-owned option dicts that are reused and returned reports that the caller overwrites, differences, saves), in the other never; "
    "the final reports must agree; non-trivial = at least one observation followed by a further update or merge"
)
STATES = "(observation kind, followed by update?)"
REAL = p01.REAL
STUB = p01.STUB + ["save target is an in-memory file"]
SHRINK = p01.SHRINK
FORMATS = [None, "pretty", "compact", "serializable", "flat"]


def plan(rng, tier):
    p = p07.plan(rng, tier)
    ops = [op for op in p["ops"] if op[0] != "report"]
    names = []
    out = []
    for op in ops:
        out.append(op)
        n = op[1] if op[0] == "deliver" else op[3]
        if n not in names:
            names.append(n)
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(["report", "report", "report", "diff", "save", "savejson", "misc"])
            ro = {"output_format": rng.choice(FORMATS)}
            if rng.random() < 0.3:
                ro["num_quantile_groups"] = rng.choice([1, 2, 4, 10, 1000])
            if rng.random() < 0.3:
                ro["omit_keys"] = rng.choice([["data_stats.*.statistics.histogram"], ["global_stats.times"], ["*.statistics.times"]])
            if rng.random() < 0.2:
                ro["remove_disabled_flag"] = True
            out.append(["observe", rng.choice(names), k, ro, rng.random() < 0.5, rng.choice(names)])
    p["ops"] = out
    return p


def vandalise(x, depth=0):
    """Overwrite everything mutable in a value the caller owns."""

    if isinstance(x, dict):
        for v in list(x.values()):
            vandalise(v, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            vandalise(v, depth + 1)
        del x[:]
    elif isinstance(x, set):
        x.clear()


class Keep(io.BytesIO):
    def close(self):
        pass


def observe(env, fl, op, mem):
    _, name, kind, ro, wreck, other = op
    node = fl.nodes.get(name)
    if node is None:
        return False
    key = str(sorted(map(str, ro.items())))
    opts = mem.setdefault(key, copy.deepcopy(ro))  # the caller reuses its option dict
    if kind == "report":
        a = call(env, "report", node.prof.report, opts)
        d = None
        if ro.get("output_format") in (None, "serializable"):
            b = call(env, "report", node.prof.report, opts)
            d = canon.diff_reports(a, b, 0)
        if d:
            raise Violation("report-not-repeatable:" + canon.strip_idx(d[0]), f"node {name}: {d} in two reports with nothing in between")
        if opts != ro:
            raise Violation("options-changed", f"node {name}: report options {ro} became {opts}")
        if wreck:
            vandalise(a)
    elif kind == "diff":
        if other not in fl.nodes:
            return False
        a = call(env, "diff", node.prof.diff, fl.nodes[other].prof)
        if wreck:
            vandalise(a)
    elif kind in ("save", "savejson"):
        p = f"{env.scratch}/obs"
        try:
            node.prof.save(p, save_method="json" if kind == "savejson" else "pickle")
        except Exception as e:
            if kind == "save":
                raise Violation(f"unexpected-exception:save:{type(e).__name__}", repr(e)) from e
            env.probe("json_save_refused")
    else:
        call(env, "misc", lambda: (len(node.prof.profile), node.prof.total_samples, [c.name for c in node.prof.profile]))
    env.probe("observe_" + kind)
    return True


def world(env, plan, observed):
    fl = fleet.Fleet(env, plan)
    seen, mem, hits = set(), {}, 0
    for k, op in enumerate(plan["ops"]):
        if op[0] == "observe":
            if observed:
                env.log("observe", op[1], op[2], str(op[3]))
                if observe(env, fl, op, mem):
                    seen.add(op[1])
            continue
        if observed:
            env.log(op[0], op[1], op[2] if op[0] == "merge" else None)
            hits += op[1] in seen or (op[0] == "merge" and op[2] in seen)
        p07.salted(env, plan, fl, k, op)
    return fl, hits


def run(plan, env):
    a, env.hits = world(env, plan, True)
    b, _ = world(env, plan, False)
    for n in sorted(a.nodes):
        d = canon.diff_reports(a.report(n), b.report(n), 1e-9)
        if d:
            raise Violation("observed:" + canon.strip_idx(d[0]), f"node {n}: {d[0]} is {d[1]!r} where the profile was looked at, {d[2]!r} where not")
        env.state_keys.add(f"{a.nodes[n].merged}/{a.nodes[n].batches}/{env.hits}")
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "hits", 0) > 0
