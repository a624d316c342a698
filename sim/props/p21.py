"""P21: row samples and row batches of a reader are made of its rows."""
import io

from .. import files, readers
from ..core import Violation, call
from . import p19

ID = "P21"
RUNS = {"quick": (600, 300), "thorough": (16000, 3000)}
RULE = (
    "one run = one file with a unique id in every row; readers with sample_nrows (CSV by path, buffer or text, Parquet by path or buffer) under many seeds, and batch generators (several at once, interleaved by the schedule, "
    "with any batch size, for every reader class); a sample has min(n, rows) distinct rows, each exactly as in the file, and over many seeds every row is drawn about equally often; "
    "a generator hands out every row exactly once in batches of the asked size, whatever else is read meanwhile; non-trivial = at least one proper sample or two interleaved generators"
)
STATES = "(format, route, rows, sample size) / (generators, batch sizes)"
REAL = p19.REAL[:1] + ["reservoir sampling, sample_parquet, get_batch_generator"]
STUB = ["disk (SimDisk over a scratch directory)", "process-global randomness (seeded)", "wall clock"]
SHRINK = [["file", "rows"], ["seeds"], ["gens"], ["sched"]]


def plan(rng, tier):
    what = rng.choice(["sample", "sample", "sample", "batches", "uniform"])
    fmt = rng.choice(["csv", "csv", "parquet"]) if what != "batches" else None
    f = files.draw(rng, fmt, max_rows=rng.choice([12, 60, 150]), newlines=rng.random() < 0.3)
    while f["fmt"] == "graph" or not f["rows"]:
        f = files.draw(rng, fmt, max_rows=60)
    f["typed"] = f["nested"] = False
    if what == "uniform":
        f["rows"] = (f["rows"] * 30)[: rng.choice([3, 8, 14])]
        for i, r in enumerate(f["rows"]):
            f["rows"][i] = ["u%d" % i] + r[1:]
    if what == "uniform" and rng.random() < 0.15:  # a large sample, out of not many more rows
        what = "large"
        f["rows"] = [["u%d" % i, "x"] for i in range(rng.choice([130, 160, 240]))]
        f["cols"] = ["id", "v"]
    n = len(f["rows"])
    p = {"what": what, "file": f, "opt": "explicit", "buf": rng.choice([64, 512, 8192])}
    p["route"] = rng.choice(["path", "path", "bytes", "string"])
    p["n"] = rng.choice([1, 2, n - 1, n, n + 1, n + 7, rng.randint(1, n)]) or 1
    if what == "uniform":
        p["n"] = rng.randint(1, n - 1)
    if what == "large":
        p["n"] = rng.randint(80, n - 20)
    p["head"] = rng.choice([0, 0, 0, None, 1, 3]) if f["fmt"] == "csv" else 0
    p["select"] = rng.random() < 0.2
    p["seeds"] = [rng.randrange(1 << 30) for _ in range(rng.randint(2, 5))]
    p["gens"] = [rng.choice([1, 2, 3, 7, n, n + 5, rng.randint(1, n)]) for _ in range(rng.randint(1, 3))]
    p["sched"] = [rng.randrange(1 << 16) for _ in range(200)]
    return p


def source(env, plan, body, text):
    if plan["route"] == "bytes":
        return io.BytesIO(body)
    if plan["route"] == "string" and text is not None:
        return io.StringIO(text)
    return readers.put_file(env, "f", body)


def run(plan, env):
    from dataprofiler.data_readers.csv_data import CSVData
    from dataprofiler.data_readers.parquet_data import ParquetData

    d = plan["file"]
    if not d["rows"]:
        return
    body, text = files.render(d)
    if plan["what"] == "batches":
        return batches(plan, env, body, text)
    cols, rows, n = d["cols"], d["rows"], plan["n"]
    if d["fmt"] == "csv":
        opts = {"delimiter": d["delim"], "header": plan["head"], "encoding": d["enc"], "sample_nrows": n}
        if plan["head"]:
            text = "".join("# note%d\n" % i + "" for i in range(plan["head"])) + text
        elif plan["head"] is None:
            text = text[text.index("\n") + 1 :] if not any("\n" in c for c in cols) else text
            cols = list(range(len(cols)))
        body = text.replace("\n", d["nl"]).encode(d["enc"])
        K = CSVData
    else:
        opts = {"sample_nrows": n}
        K = ParquetData
    if plan["select"] and plan["head"] is not None:
        opts["selected_columns"] = [cols[0], cols[-1]]
        rows = [[r[0], r[-1]] for r in rows]
        cols = [cols[0], cols[-1]]
    ref = {r[0]: [str(v) for v in r] for r in rows}
    if len(ref) != len(rows):
        return
    seeds = plan["seeds"]
    if plan["what"] == "uniform":
        seeds = [seeds[0] + 7919 * i for i in range(400)] if seeds else []
    if plan["what"] == "large":
        seeds = [seeds[0] + 7919 * i for i in range(60)] if seeds else []
    seen = dict.fromkeys(ref, 0)
    for s in seeds:
        env.seed_int = s
        env.reset_random(3)
        src = source(env, plan, body, text)
        df = call(env, "read", lambda: K(src, options=dict(opts)).data)
        if list(df.columns) != list(cols):
            raise Violation("sample-columns", f"{list(df.columns)} instead of {cols}")
        got = df.values.tolist()
        ids = [r[0] for r in got]
        what = f"{d['fmt']} by {plan['route']}, {len(rows)} rows, sample_nrows={n}, seed {s}"
        if len(got) != min(n, len(rows)):
            raise Violation("sample-size", f"{what}: {len(got)} rows")
        if len(set(ids)) != len(ids):
            raise Violation("sample-repeats-row", f"{what}: {ids}")
        for r in got:
            if ref.get(r[0]) != [str(v) for v in r]:
                raise Violation("sample-row-not-in-file", f"{what}: {r} (file: {ref.get(r[0])})")
            seen[r[0]] += 1
        env.log(plan["route"], repr(got))
    env.ok = len(seeds) and n < len(rows)
    env.state_keys.add(f"{d['fmt']}/{plan['route']}/{len(rows)}/{n}/{plan['head']}")
    if plan["what"] == "uniform":
        p = n / len(rows)
        m, sd = len(seeds) * p, (len(seeds) * p * (1 - p)) ** 0.5
        for k, v in seen.items():
            if abs(v - m) > 6.5 * sd:
                raise Violation("sample-not-uniform", f"{d['fmt']} by {plan['route']}, {len(rows)} rows, sample_nrows={n}: over {len(seeds)} seeds row {k} was drawn {v} times, expected {m:.0f} +- {sd:.1f}: {seen}")
        env.probe("uniformity_checked")


    if env.disk is not None and env.disk.open_handles():
        raise Violation("handle-left-open", f"{d['fmt']} by {plan['route']}: {env.disk.open_handles()}")
    if plan["what"] == "large" and n < len(rows) - 1 and seeds:
        R, tail = len(rows), rows[n:]
        q = n / R
        m = len(seeds) * len(tail) * q
        sd = (len(seeds) * len(tail) * q * (1 - q) * (R - len(tail)) / (R - 1)) ** 0.5
        v = sum(seen[r[0]] for r in tail)
        if abs(v - m) > 6.5 * sd:
            raise Violation("sample-not-uniform", f"{d['fmt']} by {plan['route']}, {R} rows, sample_nrows={n}: over {len(seeds)} seeds the last {len(tail)} rows were drawn {v} times, expected {m:.0f} +- {sd:.1f}")
        env.probe("large_sample_checked")


def batches(plan, env, body, text):
    import pandas as pd

    src = source(env, plan, body, text)
    K = env.dp.Data
    o = call(env, "read", readers.make(env, plan, src))
    data = call(env, "data", lambda: o.data)
    key = (lambda b: [tuple(map(repr, r)) for r in b.values.tolist()]) if isinstance(data, pd.DataFrame) else (lambda b: [repr(x) for x in b])
    want = key(data)
    gens = [[call(env, "generator", o.get_batch_generator, bs), bs, [], []] for bs in plan["gens"]]
    live = list(range(len(gens)))
    steps = 0
    while live:
        k = live[env.decide(len(live))]
        g = gens[k]
        try:
            b = next(g[0])
        except StopIteration:
            live.remove(k)
            continue
        g[2].extend(key(b))
        g[3].append(len(b))
        steps += 1
        if steps > 10 * len(want) + 100:
            raise Violation("batches-never-end", f"{steps} batches of {len(want)} rows")
        if env.decide(5) == 1:
            call(env, "len", len, o)
    for k, (g, bs, got, sizes) in enumerate(gens):
        what = f"{type(o).__name__}, {len(want)} rows, batch size {bs}"
        if sorted(got) != sorted(want):
            raise Violation("batches-lose-or-repeat-rows", f"{what}: {len(got)} rows, {len(set(got))} distinct, {len(set(want) - set(got))} missing")
        if any(x != bs for x in sizes[:-1]) or (sizes and not 0 < sizes[-1] <= bs):
            raise Violation("batch-size", f"{what}: sizes {sizes}")
    if key(o.data) != want:
        raise Violation("batches-change-data", type(o).__name__)
    env.ok = len(gens) > 1
    env.log("batches", [g[3] for g in gens])
    env.state_keys.add(f"{type(o).__name__}/{plan['gens']}")


def nontrivial(plan, env):
    return bool(getattr(env, "ok", 0))
