"""P28: every data format of a reader holds the file's rows, over any history of format changes and failed reads."""
import csv
import io
import json

from .. import disk, files, readers
from ..core import Violation, call, lib_frame

ID = "P28"
RUNS = {"quick": (2000, 300), "thorough": (40000, 3000)}
RULE = (
    "one run = one CSV, JSON, Parquet, Avro or text file read by a reader object whose data format is changed, asked for and mis-set in a seeded sequence, with read errors and short reads on the way, "
    "from a path, bytes buffer or given data, with any number of rows or characters per entry; whatever format is asked for must hold exactly the file's rows in order, and each entry the configured number; non-trivial = two formats were compared"
)
STATES = "(format, data formats asked for, faults)"
REAL = ["all reader classes, their data formats and batch generators, pandas, pyarrow, fastavro"]
STUB = ["disk (SimDisk: real files behind scripted faults)", "process-global randomness (seeded)"]
SHRINK = [["ops"], ["file", "rows"]]
FORMATS = {"csv": ["dataframe", "records"], "parquet": ["dataframe", "records", "json"], "text": ["text"]}
JSONF = ["dataframe", "flattened_dataframe", "records", "json"]


def plan(rng, tier):
    d = files.draw(rng, rng.choice(["csv", "csv", "jsonl", "jsonarr", "parquet", "avro", "text", "jsonobj"]), max_rows=rng.choice([5, 12, 40]), newlines=rng.random() < 0.3)
    d["nested"] = False
    d["typed"] = False
    if rng.random() < 0.5 or d["fmt"] == "jsonobj":
        files.enrich(rng, d, single=True)
    if rng.random() < 0.2 and d["fmt"] != "text":
        for r in rng.sample(d["rows"], min(2, len(d["rows"]))):
            r[-1] = str(r[-1]) + rng.choice(["\u2028", "\x85", "\x0b", "\x1c"]) + "x" if d["enc"] in ("utf-8", "utf-16") else ""
    p = {"file": d, "route": rng.choice(["path", "path", "bytes", "data", "str"]), "per": rng.choice([None, 1, 2, 3, 7, 50]), "buf": rng.choice([64, 512, 8192])}
    fm = FORMATS.get(d["fmt"], JSONF)
    p["start"] = rng.choice([None, None] + fm)
    ops = []
    for _ in range(rng.randint(2, 7)):
        x = rng.random()
        if x < 0.55:
            ops.append(["get", rng.choice(fm)])
        elif x < 0.65:
            ops.append(["bad", rng.choice(["xml", "", "frame", "graph"])])
        elif x < 0.75:
            ops.append(["len"])
        elif x < 0.85:
            ops.append(["batches", rng.choice([1, 2, 5, 100])])
        else:
            ops.append(["fault", [[rng.choice(["read", "read", "open_r"]), rng.choice([0, 0, 1, 2]), rng.choice(["eio", "short"])]]])
    p["ops"] = ops
    return p


def options(plan):
    d, o = plan["file"], {}
    if d["fmt"] == "csv":
        o = {"delimiter": d["delim"], "header": 0, "encoding": d["enc"], "quotechar": '"'}
        if plan["per"]:
            o["record_samples_per_line"] = plan["per"]
    elif d["fmt"] in ("jsonl", "jsonarr", "jsonobj", "text"):
        o = {"encoding": d["enc"]}
        if d["fmt"] == "text" and plan["per"]:
            o["samples_per_line"] = plan["per"]
    if plan["start"]:
        o["data_format"] = plan["start"]
    return o


def lines_of(recs):
    return [x for r in recs for x in r.split("\n") if x]


def check(plan, o, f, got, text, cols, rows, per):
    """The content of one format against what the file says."""
    import pandas as pd

    d, what = plan["file"], f"{plan['file']['fmt']} as {f}, {len(rows)} rows, {per} per entry"
    if f in ("dataframe", "flattened_dataframe"):
        if not isinstance(got, pd.DataFrame):
            raise Violation("not-a-dataframe", f"{what}: {type(got).__name__}")
        have = [[str(v) for v in r] for r in got.values.tolist()]
        if rows and [str(c) for c in got.columns] != cols:
            raise Violation("columns", f"{what}: columns {list(got.columns)}, file has {cols}")
        if have != rows:
            raise Violation(f"rows:{f}", f"{what}: {have!r:.300} for {rows!r:.300}")
        return
    if not isinstance(got, list) or not all(isinstance(x, str) for x in got):
        raise Violation("not-a-list", f"{what}: {type(got).__name__}")
    if f == "text":
        if "".join(got) != text:
            raise Violation("text", f"{what}: {''.join(got)!r:.300} for {text!r:.300}")
        if per and any(len(x) != per for x in got[:-1]):
            raise Violation("text-chunk", f"{what}: entries of {[len(x) for x in got]} characters")
        return
    if f == "json":
        objs = json.loads("".join(got)) if got else []
    elif d["fmt"] == "csv":
        back = list(csv.reader(io.StringIO("\n".join(got), newline=""), delimiter=d["delim"]))
        if rows and back[0] != cols or back[1:] != rows:
            raise Violation("records", f"{what}: {back!r:.400} for {rows!r:.300}")
        n = len("\n".join(got).split("\n"))
        if len(got) != -(-n // (per or 1)):
            raise Violation("records-per-entry", f"{what}: {n} lines in {len(got)} entries")
        return
    else:
        objs = [json.loads(x) for x in lines_of(got)]
    have = [[str(x.get(c)) for c in cols] for x in objs]
    if have != rows or any(set(x) != set(cols) for x in objs):
        raise Violation(f"rows:{f}", f"{what}: {objs!r:.300} for {rows!r:.300}")


def run(plan, env):
    import pandas as pd

    d = plan["file"]
    body, text = files.render(d)
    cols = d.get("cols")
    rows = [[str(v) for v in r] for r in d["rows"]] if d["fmt"] != "text" else []
    cols = cols and [str(c) for c in cols]
    if d["fmt"].startswith("json") and not rows:
        return
    K = readers.klass(env, dict(plan, direct=True))
    o = options(plan)
    path = readers.put_file(env, "f", body)
    per = plan["per"] if d["fmt"] in ("csv", "text") else None
    if plan["route"] == "data":
        data = text if d["fmt"] == "text" else pd.DataFrame({c: [r[i] for r in rows] for i, c in enumerate(cols)}, dtype=object)
        if not len(data):
            return
        rd = call(env, "construct", lambda: K(data=data, options=dict(o)))
    elif plan["route"] == "str" and text is not None:  # the file's text itself
        if not text:
            return
        rd = call(env, "construct", lambda: K(data=text, options=dict(o)))
    else:
        rd = call(env, "construct", lambda: K(io.BytesIO(body) if plan["route"] == "bytes" else path, options=dict(o)))
    seen, cur, dk = set(), rd.data_format, env.disk
    for k, op in enumerate(plan["ops"]):
        env.steps += 1
        if op[0] == "bad":
            try:
                rd.data_format = op[1]
            except ValueError:
                pass
            else:
                raise Violation("bad-format-accepted", f"data_format = {op[1]!r}")
        elif op[0] == "fault":
            if rd._data is not None or plan["route"] != "path":
                continue
            dk.handles = []
            before = dict(env.faults)
            dk.arm([list(x) for x in op[1]])
            err = got = None
            try:
                got = rd.data
            except Violation:
                raise
            except Exception as e:
                err = e
            finally:
                dk.arm([])
            hit = {x: v - before.get(x, 0) for x, v in env.faults.items() if v != before.get(x, 0) and "short" not in x}
            if err is not None and not hit:
                raise Violation(f"unexpected-exception:data:{type(err).__name__}", f"{err!r} at {lib_frame(err)}")
            for h in dk.handles:
                if not h.closed:
                    raise Violation("handle-left-open", "a file stays open after a failed read")
            if err is None:
                check(plan, o, cur, got, text, cols, rows, per)
            else:
                env.probe("read_failed")
        elif op[0] == "get":
            rd.data_format = op[1]
            cur = op[1]
            got = call(env, "data", lambda: rd.data)
            check(plan, o, cur, got, text, cols, rows, per)
            if isinstance(got, list):
                got.clear()
            seen.add(cur)
        elif op[0] == "len":
            n = call(env, "len", lambda: len(rd))
            if n != len(rd.data):
                raise Violation("len", f"len {n}, data has {len(rd.data)} entries")
        elif op[0] == "batches":
            env.reset_random(k)
            data = call(env, "data", lambda: rd.data)
            bs = call(env, "batches", lambda: list(rd.get_batch_generator(op[1])))
            if any(len(b) != op[1] for b in bs[:-1]) or (bs and not 0 < len(bs[-1]) <= op[1]):
                raise Violation("batch-size", f"{[len(b) for b in bs]} for {op[1]}")
            a = [repr(x) for b in bs for x in (b.values.tolist() if isinstance(b, pd.DataFrame) else b)]
            b = [repr(x) for x in (data.values.tolist() if isinstance(data, pd.DataFrame) else data)]
            if sorted(a) != sorted(b):
                raise Violation("batch-rows", f"{a!r:.300} for {b!r:.300}")
        if rd.data_format != cur:
            raise Violation("format-changed", f"after {op}: data format {rd.data_format!r}, was set to {cur!r}")
    env.seen = len(seen)
    env.log(d["fmt"], plan["route"], plan["ops"], d["rows"])
    env.state_keys.add(f"{d['fmt']}/{plan['route']}/{sorted(seen)}/{sorted(env.faults)}")


def nontrivial(plan, env):
    return getattr(env, "seen", 0) > 1 or (plan["file"]["fmt"] == "text" and getattr(env, "seen", 0))
