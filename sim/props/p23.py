"""P23: data labels of a column follow its values over any history."""
import copy

from .. import fleet, gen, labeler
from ..core import Violation, call
from . import p01, p02

ID = "P23"
RUNS = {"quick": (700, 300), "thorough": (12000, 3000)}
RULE = (
    "one run = a batch/merge history with a deterministic regex labeler; label representation and average predictions are compared with the labels of the column's non-null values, "
    "the data label with the documented rule (top labels within the probability differential); non-trivial = at least two deliveries"
)
STATES = "(batches, merged?, labels present)"
REAL = p01.REAL + ["DataLabelerColumn, BaseDataLabeler pipeline, RegexModel, StructRegexPostProcessor"]
STUB = ["wall clock", "process-global randomness (seeded)", "no neural network, no worker pool"]
SHRINK = p01.SHRINK
KINDS = ["int", "cat", "nulls", "mix", "phase", "zero", "text", "const"]


def plan(rng, tier):
    p = p02.plan(rng, tier)
    ncols = rng.choice([1, 2])
    ks, rows = gen.table(rng, ncols, len(p["rows"]), KINDS)
    p.update(kinds=ks, rows=rows, cols=gen.names(rng, ncols), typed={})
    p["opts"] = {"set": {"structured_options.datetime.is_enabled": False}, "labeler": True}
    for op in p["ops"]:
        if op[0] == "deliver" and len(op) > 4:
            op[4] = None
    if rng.random() < 0.3:
        p["most"] = rng.choice([1, 2, 3, 5])
        p["opts"]["set"]["structured_options.data_labeler.max_sample_size"] = p["most"]
    p["odd"] = rng.choice([None, None, 4, 1000])  # merging with a profile that labels another number of values is refused
    return p


def check(env, fl, name):
    node = fl.nodes[name]
    rep = fl.report(name)
    for pos, col in enumerate(rep["data_stats"]):
        c = node.order[pos]
        vals = [v for v in (fl.cell(i, c) for i in node.rows) if not fl.null_test(c)(v)]
        lab = [labeler.label(v) for v in vals]
        st = col["statistics"]
        what = f"node {name} column {fl.cols[c]!r}"
        if not vals:
            if col["data_label"] is not None:
                raise Violation("label:none", f"{what}: no values, data_label {col['data_label']!r}")
            continue
        want = {k: lab.count(k) / len(lab) for k in labeler.LABELS}
        got = st["data_label_representation"]
        most = fl.plan.get("most")
        if most:
            # at most so many values of each batch are labelled: the report is about those
            n = fl.labelled[name][c]
            cnt = {k: got[k] * n for k in got}
            if any(abs(v - round(v)) > 1e-6 or v > lab.count(k) + 1e-6 for k, v in cnt.items()) or abs(sum(cnt.values()) - n) > 1e-6:
                raise Violation("label:sample", f"{what}: data_label_representation {got}, {n} of {len(lab)} values were to be labelled: {want}")
            env.probe("label_sample_checked")
            if n < len(lab):
                want = dict(got)
        if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-9 for k in want):
            raise Violation("label:representation", f"{what}: data_label_representation {got}, values say {want}")
        avg = node.prof._profile[pos].profiles["data_label_profile"]._profiles["data_labeler"].avg_predictions
        if any(abs(avg[k] - want[k]) > 1e-9 for k in want):
            raise Violation("label:avg_predictions", f"{what}: avg_predictions {avg}, values say {want}")
        top = sorted(want.values(), reverse=True)
        dl = col["data_label"]
        if top[0] < 0.35:
            ok = dl == "could not determine"
        else:
            ls = dl.split("|")
            lead = {k for k in want if top[0] - want[k] <= 0.2 + 1e-12}
            edge = {k for k in want if abs(top[0] - want[k] - 0.2) < 1e-9}
            ok = len(set(ls)) == len(ls) and want[ls[0]] == top[0] and (
                set(ls) | edge == lead | edge if len(lead) <= 3 else set(ls) <= lead
            ) and len(ls) <= 3
        if not ok:
            raise Violation("label:data_label", f"{what}: data_label {dl!r}, values say {want}")
        env.state_keys.add(f"{node.batches}/{node.merged}/{len(set(lab))}")


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    fl.labelled = {}
    for op in plan["ops"]:
        env.log(*[str(x)[:16] for x in op[:3]])
        if op[0] == "deliver":
            old = len(fl.nodes[op[1]].rows) if op[1] in fl.nodes else 0
            fl.deliver(*op[1:])
            if op[1] in fl.nodes:
                had = fl.labelled.setdefault(op[1], [0] * len(fl.cols))
                for c in range(len(fl.cols)):
                    k = sum(1 for i in fl.nodes[op[1]].rows[old:] if not fl.null_test(c)(fl.cell(i, c)))
                    had[c] += min(k, plan.get("most") or k)
        elif op[0] == "merge":
            fl.merge(*op[1:])
            if op[3] in fl.nodes:
                a, b = (fl.labelled.get(x) or [0] * len(fl.cols) for x in op[1:3])
                fl.labelled[op[3]] = [x + y for x, y in zip(a, b)]
        elif op[0] == "report" and op[1] in fl.nodes:
            check(env, fl, op[1])
    for n in sorted(fl.nodes):
        check(env, fl, n)
    names = sorted(fl.nodes)
    if plan.get("odd") and names and plan["odd"] != plan.get("most", 1000):
        node = fl.nodes[names[-1]]
        ids = fl.ids(node.rows)[:4]
        spec = copy.deepcopy(fl.opts_spec)
        spec["set"]["structured_options.data_labeler.max_sample_size"] = plan["odd"]
        if ids:
            other = call(env, "profile", fl.dp.StructuredProfiler, fl.frame(ids), options=fleet.make_options(fl.dp, spec))
            try:
                node.prof + other
            except Exception:
                env.fault("refused_operation")
                check(env, fl, names[-1])
            else:
                raise Violation("not-refused:max_sample_size", f"merging node {names[-1]} with a profile labelling {plan['odd']} values per batch returned normally")
    env.log("end")


def nontrivial(plan, env):
    return env.steps >= 2
