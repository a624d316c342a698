"""P09: an operation the profiler refuses leaves everything as it was."""
import copy
import os
import warnings

from .. import canon, fleet
from ..core import Violation, call
from . import p01, p07

ID = "P09"
RUNS = {"quick": (450, 300), "thorough": (12000, 3000)}
RULE = (
    "one run = the same delivery and merge history in two worlds; in one, refused operations are mixed in at seeded moments (batches with missing, extra, renamed or repeated columns, objects that are no data, "
    "empty batches, bad sample settings, merges with another schema, other options or another kind of profile, differences and saves that cannot be), in the other not; every refusal must be raised, "
    "and both operands must report before and after, and at the end of the history, what they would have reported without it; non-trivial = at least one refused operation followed by a further update or merge"
)
STATES = "(refused operation, outcome)"
REAL = p01.REAL + ["UnstructuredProfiler (as a foreign operand)"]
STUB = p01.STUB
SHRINK = p01.SHRINK
UPDATES = ["missing", "extra", "renamed", "repeated", "onename", "dict", "string", "none", "int", "text_data", "mts_str", "mts_float", "bad_size", "empty_list", "empty_frame", "empty_series"]
MERGES = ["m_schema", "m_names", "m_empty", "m_text", "m_obj", "m_rowstats", "m_hash", "m_hllseed", "m_type", "m_cat", "m_order", "m_bins", "m_cms", "m_cmsset", "m_uniq", "m_null", "m_rev_type", "m_rev_cat", "m_rev_order", "m_rev_schema", "m_rev_names", "m_rev_empty", "m_rev_text", "m_rev_rowstats", "m_rev_hash", "m_rev_uniq", "m_rev_null", "m_stat", "m_topk"]
OTHERS = ["d_obj", "d_text", "s_method", "s_path", "r_format"]
OPT = {
    "m_rowstats": {"structured_options.row_statistics.is_enabled": False},
    "m_uniq": {"structured_options.row_statistics.unique_count.is_enabled": False},
    "m_null": {"structured_options.row_statistics.null_count.is_enabled": False},
    "m_hash": {"structured_options.row_statistics.unique_count.hashing_method": "hll"},
    "m_hllseed": {"structured_options.row_statistics.unique_count.hashing_method": "hll", "structured_options.row_statistics.unique_count.hll.seed": 77},
    "m_type": {"structured_options.text.is_enabled": False},
    "m_cat": {"structured_options.category.is_enabled": False},
    "m_order": {"structured_options.order.is_enabled": False},
    "m_bins": {"structured_options.*.histogram_and_quantiles.bin_count_or_method": 7},
    "m_cms": {"structured_options.category.cms": True},
    "m_cmsset": {"structured_options.category.cms": True, "structured_options.category.cms_confidence": 0.7, "structured_options.category.cms_relative_error": 0.1},
    "m_stat": {"structured_options.*.sum.is_enabled": False, "structured_options.*.variance.is_enabled": False, "structured_options.*.skewness.is_enabled": False, "structured_options.*.kurtosis.is_enabled": False},
    "m_topk": {"structured_options.category.top_k_categories": 1},
}
MUST = {"text_data", "missing", "extra", "renamed", "repeated", "onename", "dict", "string", "none", "int", "mts_str", "mts_float", "m_schema", "m_names", "m_empty", "m_text", "m_obj", "m_rowstats", "m_uniq", "m_null", "m_hash", "m_hllseed", "d_obj", "d_text", "s_method", "m_type", "m_cat", "m_order"}
QUIET = {"empty_list", "empty_frame", "empty_series"}


def plan(rng, tier):
    p = p07.plan(rng, tier)
    ops, names, out = [op for op in p["ops"] if op[0] != "report"], [], []
    for op in ops:
        out.append(op)
        n = op[1] if op[0] == "deliver" else op[3]
        if n not in names:
            names.append(n)
        for _ in range(rng.choice([0, 1, 1, 2])):
            kind = rng.choice(rng.choice([UPDATES, UPDATES, MERGES, MERGES, OTHERS]))
            out.append(["refused", rng.choice(names), kind, rng.sample(range(len(p["rows"])), min(len(p["rows"]), rng.randint(1, 5)))])
    p["ops"] = out
    return p


def opts_with(fl, change):
    spec = copy.deepcopy(fl.opts_spec)
    spec.setdefault("set", {}).update(change)
    return fleet.make_options(fl.dp, spec)


def attempt(env, fl, op):
    """Do the refused operation; (outcome, operands looked at)."""
    import pandas as pd

    _, name, kind, ids = op
    node = fl.nodes.get(name)
    if node is None:
        return None
    ids = fl.ids(ids)
    if not ids:
        return None
    prof = node.prof
    df = fl.frame(ids, list(range(len(ids))))
    dup = not fl.names_distinct()
    other = None
    must = kind.replace("m_rev_", "m_") in MUST
    if kind in UPDATES:
        kw, data = {}, df
        if kind == "missing":
            if len(df.columns) < 2:
                return None
            data = df.iloc[:, :-1]
        elif kind == "extra":
            data = pd.concat([df, pd.Series(["1"] * len(df), index=df.index, name="zzz", dtype=object)], axis=1)
        elif kind == "renamed":
            data = df.copy()
            data.columns = list(df.columns[:-1]) + ["zzz"]
        elif kind == "repeated":
            data = pd.concat([df, df.iloc[:, :1]], axis=1)
        elif kind == "onename":
            if len(df.columns) < 2 or dup:
                return None
            data = df.copy()
            data.columns = [df.columns[0]] * len(df.columns)
        elif kind == "dict":
            data = {c: ["1"] for c in map(str, fl.cols)}
        elif kind == "string":
            data = "a,b\n1,2\n"
        elif kind == "none":
            data = None
        elif kind == "int":
            data = 7
        elif kind == "text_data":
            if fl.cols == [0]:
                return None  # a list of texts is a table with the one column 0
            data = env.dp.Data(data="some text", data_type="text")
        elif kind == "mts_str":
            kw = {"min_true_samples": "3"}
        elif kind == "mts_float":
            kw = {"min_true_samples": 2.5}
        elif kind == "bad_size":
            kw = {"sample_size": "many"}
        elif kind == "empty_list":
            data = []
        elif kind == "empty_frame":
            data = df.iloc[:0]
        elif kind == "empty_series":
            data = pd.Series([], dtype=object)

        def act():
            prof.update_profile(data, **kw)

    elif kind in MERGES:
        k = kind.replace("m_rev_", "m_")
        rev = "m_rev_" in kind
        if k == "m_schema":
            extra = df.copy()
            extra["zzz"] = "1"
            other = env.dp.StructuredProfiler(extra, options=fl.options)
        elif k == "m_names":
            ren = df.copy()
            ren.columns = ["q%d" % i for i in range(len(df.columns))]
            other = env.dp.StructuredProfiler(ren, options=fl.options)
        elif k == "m_empty":
            other = env.dp.StructuredProfiler(None, options=fl.options)
        elif k == "m_text":
            o = env.dp.ProfilerOptions()
            o.set({"data_labeler.is_enabled": False})
            other = env.dp.UnstructuredProfiler("some text here", options=o)
        elif k == "m_obj":
            other = 3
        else:
            if str(fl.opts_spec["set"].get("structured_options.category.is_enabled")) == "False" and k in ("m_cat", "m_cms", "m_cmsset", "m_topk"):
                return None
            if k in ("m_hash", "m_hllseed", "m_cms", "m_order") and any(x in fl.opts_spec["set"] for x in list(OPT[k])[:1]):
                return None
            if k == "m_type" and any(x.endswith((".int.is_enabled", ".float.is_enabled")) for x in fl.opts_spec["set"]):
                return None
            if k in ("m_rowstats", "m_uniq", "m_null") and any("null_replication" in x or "hashing" in x for x in fl.opts_spec["set"]):
                return None
            if k in ("m_cat", "m_stat") and any("chi2" in x or "correlation" in x for x in fl.opts_spec["set"]):
                return None  # needs those statistics
            other = call(env, "profile", env.dp.StructuredProfiler, df, options=opts_with(fl, OPT[k]))

        def act():
            (other + prof) if rev else (prof + other)

    elif kind == "d_obj":

        def act():
            prof.diff({"a": 1})

    elif kind == "d_text":
        o = env.dp.ProfilerOptions()
        o.set({"data_labeler.is_enabled": False})
        other = env.dp.UnstructuredProfiler("some text here", options=o)

        def act():
            prof.diff(other)

    elif kind == "s_method":

        def act():
            prof.save(env.scratch + "/never", save_method="yaml")

    elif kind == "s_path":

        def act():
            prof.save(env.scratch + "/no/such/dir/file")

        must = True
    else:

        def act():
            prof.report({"output_format": "nonsense"})

    rep = lambda p: p.report({"output_format": "serializable"}) if hasattr(p, "report") else None  # noqa: E731
    # the world without the refusal draws the same randomness afterwards: operations are salted
    before = (call(env, "report", rep, prof), call(env, "report", rep, other))
    err = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            act()
        except Exception as e:
            err = e
    env.log("refused", name, kind, type(err).__name__)
    env.state_keys.add(f"{kind}/{type(err).__name__}")
    if err is None and must:
        raise Violation("not-refused:" + kind, f"node {name}: operation {kind} returned normally")
    if err is not None and kind in QUIET:
        raise Violation("unexpected-exception:" + kind, f"node {name}: {err!r}")
    if kind not in UPDATES or err is not None or kind in QUIET:
        for who, b, p in (("profile", before[0], prof), ("other operand", before[1], other)):
            if b is None:
                continue
            d = canon.diff_reports(call(env, "report", rep, p), b, 0, skip={"times"})
            if d:
                raise Violation(f"changed-by-refused:{kind}:" + canon.strip_idx(d[0]), f"node {name}, {who}: {d[0]} is {d[1]!r} after refused {kind} ({err!r}), was {d[2]!r}")
    if os.path.exists(env.scratch + "/never"):
        raise Violation("file-left-by-refused", "save with an unknown method created the file")
    env.fault("refused_operation" if err is not None else "ignored_operation")
    return err is not None or kind in QUIET


def world(env, plan, with_refused):
    fl = fleet.Fleet(env, plan)
    seen, hits = set(), 0
    for k, op in enumerate(plan["ops"]):
        if op[0] == "refused":
            if with_refused:
                if attempt(env, fl, op):
                    seen.add(op[1])
            continue
        if with_refused:
            env.log(op[0], op[1], op[2] if op[0] == "merge" else None)
            hits += op[1] in seen or (op[0] == "merge" and op[2] in seen)
        p07.salted(env, plan, fl, k, op)
    return fl, hits


def run(plan, env):
    a, env.hits = world(env, plan, True)
    b, _ = world(env, plan, False)
    for n in sorted(a.nodes):
        d = canon.diff_reports(a.report(n), b.report(n), 0, skip={"times"})
        if d:
            raise Violation("later-changed-by-refused:" + canon.strip_idx(d[0]), f"node {n}: {d[0]} is {d[1]!r} where operations were refused before, {d[2]!r} where not")
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "hits", 0) > 0
