"""P29: a validator's results are those of the last completed run, however it was executed."""
import copy
import math

from ..core import Violation, call

ID = "P29"
RUNS = {"quick": (8000, 300), "thorough": (30000, 3000)}
RULE = (
    "one run = one or two validators given a sequence of runs over pandas or dask frames (any partitioning; the simulator decides in which order the dask tasks are executed and finish, and which of them fail), "
    "with refused configurations, missing columns and values that are no numbers between; after every run get() holds exactly the rows each rule of the last completed run names; frames and configurations are left as they were; "
    "non-trivial = at least two runs, one of them completed"
)
STATES = "(kind of frame, partitions, outcome, completed before?)"
REAL = ["Validator, range and list rules", "pandas, dask frames and dask's graph execution loop"]
STUB = ["dask worker threads (tasks are executed one at a time, in seeded order, with injected failures)"]
SHRINK = [["ops"], ["frames", "*", "rows"], ["ops", "*", "rules"]]
COLS = ["a", "b", "c"]


def frame(rng):
    n = rng.choice([1, 2, 5, 9, 20])
    kinds = [rng.choice(["int", "float", "str", "bad"] if rng.random() < 0.3 else ["int", "float", "str"]) for _ in COLS]
    rows = []
    for _ in range(n):
        row = []
        for k in kinds:
            v = rng.randint(-5, 12)
            if k == "float":
                v = v / 2 if rng.random() < 0.9 else None
            elif k == "str":
                v = rng.choice([str(v), "%.1f" % (v / 2), " %d" % v])
            elif k == "bad" and rng.random() < 0.15:
                v = rng.choice(["x", ""])
            elif k == "bad":
                v = str(v)
            row.append(v)
        rows.append(row)
    return {"rows": rows, "labels": rng.choice(["range", "range", "shift", "dup", "rev"]), "kinds": kinds}


def plan(rng, tier):
    frames = [frame(rng) for _ in range(rng.randint(1, 2))]
    ops = []
    for _ in range(rng.randint(1, 5)):
        rules = []
        for c in rng.sample(COLS, rng.randint(1, 3)):
            for kind in rng.sample(["range", "list"], rng.randint(1, 2)):
                if kind == "range":
                    lo = rng.randint(-6, 10)
                    hi = lo + rng.choice([0, 1, 3, 8, -2])
                    spec = [str(lo), str(hi)] if rng.random() < 0.2 else [lo, hi]
                else:
                    spec = [rng.choice([rng.randint(-5, 12), rng.randint(-10, 20) / 2]) for _ in range(rng.randint(0, 4))]
                rules.append([c, kind, spec])
        bad = rng.choice([None] * 5 + ["rule", "column", "type", "empty", "none"])
        df = rng.choice(["pandas", "dask", "dask"])
        fails = [] if rng.random() < 0.75 else [rng.randint(0, 6)]
        ops.append({"v": rng.randint(0, 1), "f": rng.randrange(2), "df": rng.choice([df, df.upper()]), "parts": rng.choice([1, 2, 3, 7]), "rules": rules, "bad": bad, "fails": fails, "sort": rng.random() < 0.5,
                    "order": [rng.randint(0, 1000) for _ in range(12)], "workers": rng.choice([1, 2, 4])})
    return {"frames": frames, "ops": ops}


class SimDask:
    """dask's own graph loop over tasks that run one at a time, in planned order."""

    def __init__(self, env, order, fails, workers):
        self.env, self.order, self.fails, self.workers = env, order or [0], set(fails), workers
        self.pending, self.n, self.failed = [], 0, False

    def submit(self, fn, *a, **k):
        from concurrent.futures import Future

        fut = Future()
        self.pending.append((fut, fn, a, k))
        return fut

    def next(self, queue):
        i = self.order[self.n % len(self.order)] % len(self.pending)
        if i:
            self.env.probe("dask_out_of_order")
        fut, fn, a, k = self.pending.pop(i)
        n, self.n = self.n, self.n + 1
        if n in self.fails:
            self.env.fault("dask_task_failure")
            self.failed = True
            fut.set_exception(OSError(5, "worker lost"))
        else:
            try:
                fut.set_result(fn(*a, **k))
            except Exception as e:
                fut.set_exception(e)
        return queue.get_nowait()

    def get(self, dsk, keys, **kw):
        from dask import local

        real = local.queue_get
        local.queue_get = self.next
        try:
            return local.get_async(self.submit, self.workers, dsk, keys)
        finally:
            local.queue_get = real


def number(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def hit(v, kind, spec):
    if kind == "range":
        return float(spec[0]) <= v <= float(spec[1])
    return not math.isnan(v) and any(v == x for x in spec)


def same(a, b):
    return repr(a) == repr(b)


def run(plan, env):
    import dask
    import dask.dataframe as dd
    import pandas as pd
    from dataprofiler.validators.base_validators import Validator

    frames = []
    for f in plan["frames"]:
        n = len(f["rows"])
        lab = {"range": list(range(n)), "shift": list(range(7, n + 7)), "dup": [i // 2 for i in range(n)], "rev": list(range(n))[::-1]}[f["labels"]]
        frames.append((pd.DataFrame({c: pd.Series([r[j] for r in f["rows"]], dtype={"int": "int64", "float": "float64"}.get(f["kinds"][j], object)) for j, c in enumerate(COLS)}).set_axis(lab), lab))
    vals = [Validator(), Validator()]
    done = [None, None]
    env.n = env.ok = 0
    for op in plan["ops"]:
        f = op["f"] % len(frames)
        df, lab = frames[f]
        rows = plan["frames"][f]["rows"]
        if not rows or not op["rules"]:
            continue
        env.n += 1
        w = op["v"]
        rules = {}
        for c, kind, spec in op["rules"]:
            rules.setdefault(c, {})[kind] = {"start": spec[0], "end": spec[1]} if kind == "range" else list(spec)
        config = {"df_type": op["df"], "known_anomaly_validation": rules}
        last = op["rules"][-1][0]
        if op["bad"] == "rule":
            rules[last]["rng"] = {"start": 0, "end": 1}
        elif op["bad"] == "column":
            rules["zz"] = {"list": [1]}
        elif op["bad"] == "type":
            config["df_type"] = "polars"
        elif op["bad"] == "empty":
            rules[last] = {}
        elif op["bad"] == "none":
            config = {}
        isdask = op["df"].lower() == "dask"
        pos = list(range(len(rows)))
        given = df
        if isdask:
            if op["sort"]:
                pos = sorted(pos, key=lambda i: lab[i])
                given = dd.from_pandas(df.sort_index(kind="stable"), npartitions=op["parts"])
            else:
                given = dd.from_pandas(df, npartitions=op["parts"], sort=False)
        conf0, df0 = copy.deepcopy(config), df.copy(deep=True)
        pool = SimDask(env, op["order"], op["fails"] if isdask else [], op["workers"])
        err = None
        with dask.config.set(scheduler=pool.get):
            try:
                vals[w].validate(given, config)
            except (Exception, Warning) as e:
                err = e
        want, notnum = {}, False
        for c, kind, spec in op["rules"]:
            j = COLS.index(c)
            nums = [number(rows[i][j]) if rows[i][j] is not None else math.nan for i in pos]
            if None in nums:
                notnum = True
                continue
            want.setdefault(c, {})[kind] = [(k if isdask else lab[k]) for k, x in enumerate(nums) if hit(x, kind, dict(((a, b), s) for a, b, s in op["rules"])[(c, kind)])]
        must_fail = op["bad"] or notnum or pool.failed
        env.log(env.n, w, f, isdask, op["parts"], op["bad"], type(err).__name__, pool.n if not err else 0, str(want))
        env.state_keys.add(f"{isdask}/{op['parts']}/{op['bad'] or notnum or pool.failed or 'ok'}/{done[w] is not None}")
        if must_fail and err is None:
            raise Violation("validation-failure-swallowed", f"bad={op['bad']} not-a-number={notnum} task failed={pool.failed}, and validate returned normally: {vals[w].get()!r}")
        if not must_fail:
            if err is not None:
                raise Violation(f"unexpected-exception:validate:{type(err).__name__}", f"{err!r} for {config!r}")
            done[w] = want
            env.ok += 1
            env.probe("validated_dask" if isdask else "validated_pandas")
        else:
            env.probe("validation_refused")
        if not same(config, conf0):
            raise Violation("validation-config-changed", f"{conf0!r} became {config!r}")
        if not df.equals(df0) or list(df.index) != list(df0.index):
            raise Violation("validation-data-changed", "the validated frame was changed")
        for i, v in enumerate(vals):
            if done[i] is None:
                try:
                    got = v.get()
                except (Exception, Warning):
                    continue
                raise Violation("validation-result-without-run", f"validator {i} never completed a run, yet get() gives {got!r}")
            got = call(env, "get", v.get)
            if got != done[i]:
                raise Violation("validation-result", f"validator {i}: get() {got!r}, the last completed run says {done[i]!r}")


def nontrivial(plan, env):
    return env.n >= 2 and env.ok >= 1
