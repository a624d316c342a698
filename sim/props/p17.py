"""P17: with a seed set, the same history gives the same results."""
import contextlib
import io
import os
import random

from .. import canon, core, files, fleet, gen, readers
from ..core import Violation, call
from . import p01

ID = "P17"
RUNS = {"quick": (450, 300), "thorough": (12000, 3000)}
RULE = (
    "one run = one scripted history (profiles built with sampling, updates, merges, reports, sampled file reads, row batches, free-text profiles) executed under one DataProfiler seed in three worlds: "
    "a quiet one, one in which the process-wide random generators are reseeded and drawn from, unrelated profilers work and the clock jumps between any two steps, and one in another process with other string hashing; "
    "the seed is given by set_seed or by DATAPROFILER_SEED; every result, drawn samples included, is the same in all worlds; non-trivial = something was sampled"
)
STATES = "(operations, seed source, worlds)"
REAL = p01.REAL + ["CSV and Parquet readers, batch generators, UnstructuredProfiler"]
STUB = ["wall clock", "process-global randomness (seeded, different in each world)", "disk (SimDisk over a scratch directory)"]
SHRINK = [["ops"], ["rows"], ["ops", "*", 2], ["file", "rows"], ["noise"]]


def plan(rng, tier):
    p = p01.base_plan(rng, tier, 30)
    while len(p["rows"]) < 5:
        p = p01.base_plan(rng, tier, 30)
    s = p["opts"]["set"]
    if rng.random() < 0.2:
        s["structured_options.row_statistics.unique_count.hashing_method"] = "hll"
    if rng.random() < 0.2:
        s.update({"structured_options.category.cms": True, "structured_options.category.cms_confidence": 0.95, "structured_options.category.cms_relative_error": 0.01})
        s.pop("structured_options.category.is_enabled", None)
    if rng.random() < 0.3:
        s["structured_options.correlation.is_enabled"] = True
        s.pop("structured_options.int.is_enabled", None)
        s.pop("structured_options.float.is_enabled", None)
    if rng.random() < 0.3:
        s["structured_options.chi2_homogeneity.is_enabled"] = True
        s.pop("structured_options.category.is_enabled", None)
    p["ctor"] = {"samples_per_update": rng.choice([2, 3, 5, 8])} if rng.random() < 0.6 else {}
    ids = list(range(len(p["rows"])))
    ops = []
    labels = rng.choice(["global", "reset"])
    for b in gen.batches(rng, ids, 4):
        kw = {"sample_size": rng.choice([1, 2, max(1, len(b) // 2)])} if rng.random() < 0.3 else {}
        ops.append(["deliver", rng.choice(["a", "a", "b"]), b, labels, kw])
    if rng.random() < 0.6:
        ops.append(["merge", "a", "b", "c"])
        if rng.random() < 0.4:
            ops.append(["merge", "c", "a", "d"])
    for what, pr in (("read", 0.4), ("batches", 0.3), ("text", 0.35)):
        if rng.random() < pr:
            ops.insert(rng.randint(0, len(ops)), [what, rng.choice([1, 2, 3, 5, 9]), rng.choice(["path", "bytes"])])
    p["ops"] = ops
    f = files.draw(rng, rng.choice(["csv", "csv", "parquet"]), max_rows=60, newlines=rng.random() < 0.3)
    p["file"] = f
    p["text"] = [" ".join(rng.choice(files.WORDS + ["the", "", " "]) for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(4, 14))]
    p["lang"] = rng.choice([0, 1, 7, 12345, 2**31 - 1, 2**40])
    p["how"] = [rng.choice(["set", "env"]) for _ in range(3)]
    p["noise"] = [rng.randrange(1 << 30) for _ in range(12)]
    p["hash"] = rng.random() < 0.6
    return p


@contextlib.contextmanager
def seeded(dp, how, seed):
    if how == "env":
        dp.set_seed(None)
        os.environ["DATAPROFILER_SEED"] = str(seed)
    else:
        dp.set_seed(seed)
    try:
        yield
    finally:
        os.environ.pop("DATAPROFILER_SEED", None)
        dp.set_seed(0)


def disturb(env, fl, noise, k):
    """What the rest of a process does between two steps."""
    import numpy as np

    x = noise[k % len(noise)] if noise else k
    random.seed(x)
    np.random.seed(x % (2**31))
    for _ in range(x % 3):
        random.random()
        np.random.rand(3)
    if x % 4 == 0:
        df = fl.pd.DataFrame({"z": [str((x >> i) % 50) for i in range(12)]})
        call(env, "unrelated", lambda: env.dp.StructuredProfiler(df, options=fleet.make_options(env.dp, {}), samples_per_update=5).report())
        env.probe("unrelated_profiler_between")
    env.clock.advance(3600.0 if x % 2 else -3600.0)
    env.fault("clock_jump_fwd" if x % 2 else "clock_jump_back")


def world(env, plan, w):
    """Run the whole script in world w; returns JSON-able results."""
    import numpy as np
    from dataprofiler.data_readers.csv_data import CSVData
    from dataprofiler.data_readers.parquet_data import ParquetData

    dp, out = env.dp, []
    d = plan["file"]
    body, text = files.render(d)
    env.cache.clear()
    fl = fleet.Fleet(env, plan)
    texts = {}
    with seeded(dp, plan["how"][w], plan["lang"]):
        random.seed(1)
        np.random.seed(1)
        for k, op in enumerate(plan["ops"]):
            if w == 1:
                disturb(env, fl, plan["noise"], k)
            if op[0] == "deliver":
                kw = dict(op[4])
                if op[1] not in fl.nodes:
                    kw.pop("sample_size", None)
                fl.deliver(op[1], op[2], op[3], None, **kw)
            elif op[0] == "merge":
                fl.merge(op[1], op[2], op[3])
            elif op[0] in ("read", "batches") and d["rows"]:
                K = CSVData if d["fmt"] == "csv" else ParquetData
                o = {"sample_nrows": op[1]} if op[0] == "read" else {}
                if d["fmt"] == "csv":
                    o.update(delimiter=d["delim"], header=0, encoding=d["enc"])
                src = io.BytesIO(body) if op[2] == "bytes" else readers.put_file(env, f"f{w}-{k}", body)
                r = call(env, "reader", K, src, options=o)
                if op[0] == "read":
                    out.append([k, "read", call(env, "read", lambda: [[str(v) for v in x] for x in r.data.values.tolist()])])
                else:
                    out.append([k, "batches", call(env, "batches", lambda: [[str(v) for v in x] for b in r.get_batch_generator(op[1]) for x in b.values.tolist()])])
            elif op[0] == "text" and plan["text"]:
                oo = dp.ProfilerOptions()
                oo.set({"unstructured_options.data_labeler.is_enabled": False})
                n = op[1]
                a = call(env, "text", lambda: dp.UnstructuredProfiler(plan["text"][: len(plan["text"]) // 2] or ["w"], samples_per_update=n, options=oo))
                if w == 1:
                    disturb(env, fl, plan["noise"], k + 1)
                call(env, "text update", a.update_profile, plan["text"], sample_size=n)
                if op[2] == "path":
                    b = call(env, "text", lambda: dp.UnstructuredProfiler(plan["text"], samples_per_update=n, options=oo))
                    a = call(env, "text merge", lambda: a + b)
                rep = canon.canon(call(env, "text report", a.report, {"output_format": "serializable"}))
                rep["data_stats"].pop("times", None)
                rep["global_stats"].pop("times", None)
                rep["samples"] = [str(v) for v in a.sample]
                out.append([k, "text", rep])
        for n in sorted(fl.nodes):
            if w == 1:
                disturb(env, fl, plan["noise"], 7)
            out.append([n, "report", canon.canon(fl.report(n))])
    return out


twin = world  # entry point of the helper process


# shown to a few digits; a difference in the last bit of a sum (which numpy does not
# promise to repeat) can tip the rounding
ROUNDED = {"precision"}


def compare(a, b, what, plan):
    for (k, kind, x), (k2, kind2, y) in zip(a, b):
        if (k, kind) != (k2, kind2):
            raise core.HarnessError(f"{k} {kind} vs {k2} {kind2}")
        if kind in ("report", "text"):
            skip = {"times"}
            if kind == "text" and not plan.get("text_samples"):
                skip = canon.SKIP  # known finding, see witness/P17-text-samples.json
            d = canon.diff_reports(x, y, skip=skip, ignore=ROUNDED)
            if d:
                raise Violation(f"not-reproducible:{kind}:{canon.strip_idx(d[0]).rsplit('/', 1)[-1]}", f"{what}: {kind} of {k}: {d[0]}: {d[1]!r:.300} vs {d[2]!r:.300}")
        elif x != y:
            raise Violation(f"not-reproducible:{kind}", f"{what}: step {k} gave {x!r:.300} and {y!r:.300}")
    if len(a) != len(b):
        raise core.HarnessError("results differ in length")


def run(plan, env):
    a = world(env, plan, 0)
    b = world(env, plan, 1)
    h = plan["how"]
    env.log("worlds", [[k, kind] for k, kind, _ in a])
    compare(a, b, f"seed {plan['lang']} by {h[0]} / by {h[1]} with other work in between", plan)
    if plan["hash"]:
        c = core.twin_call(env, plan, 2)
        env.probe("other_process")
        compare(a, c, f"seed {plan['lang']} by {h[0]} / by {h[2]} in another process", plan)
    env.state_keys.add(f"{sorted({o[0] for o in plan['ops']})}/{h}/{plan['hash']}")
    env.log("end", len(a))


def nontrivial(plan, env):
    return bool(plan["ctor"]) or any(o[0] != "deliver" or o[4] for o in plan["ops"])
