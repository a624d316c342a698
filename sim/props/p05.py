"""P05: category counts, exact or sketched, over any history."""
from .. import fleet, gen
from ..core import Violation
from . import p01

ID = "P05"
RUNS = {"quick": (1500, 300), "thorough": (24000, 3000)}
RULE = (
    "one run = categorical columns streamed in batches to nodes that are merged in any tree and updated further, in one of four modes: exact counts, "
    "top-k, count-min sketch with few heavy hitters, early stop; a small state machine is the oracle; non-trivial = at least two batches or one merge"
)
STATES = "(mode, stopped?, merged?, distinct values)"
REAL = p01.REAL + ["datasketches count-min sketch"]
STUB = p01.STUB
SHRINK = p01.SHRINK
LIMIT = 5  # the library calls a column categorical up to this many values, or below a uniqueness ratio


def plan(rng, tier):
    mode = rng.choice(["exact", "topk", "cms", "stop", "cms"])
    ncols = rng.choice([1, 1, 2])
    nrows = rng.choice([3, 6, 12, 25, 50, 80])
    pool = [f"v{i}" for i in range(rng.choice([2, 4, 6, 9, 14, 30]))]
    rows = []
    skew = rng.random() < 0.7
    for _ in range(nrows):
        r = []
        for _c in range(ncols):
            k = min(int(rng.expovariate(0.5)), len(pool) - 1) if skew else rng.randrange(len(pool))
            r.append("" if rng.random() < 0.1 else pool[k])
        rows.append(r)
    opts = {f"structured_options.{t}.is_enabled": False for t in ("datetime", "order", "int", "float", "text")}
    extra = {}
    if mode == "topk":
        extra["k"] = rng.randint(1, 4)
        opts["structured_options.category.top_k_categories"] = extra["k"]
    elif mode == "cms":
        extra["hh"] = rng.choice([2, 3, 5, 10, 100])
        opts["structured_options.category.cms"] = True
        opts["structured_options.category.cms_max_num_heavy_hitters"] = extra["hh"]
        opts["structured_options.category.cms_confidence"] = 0.99
        opts["structured_options.category.cms_relative_error"] = 0.001
    elif mode == "stop":
        extra["max"] = rng.choice([1, 3, 8, 20])
        extra["ratio"] = rng.choice([0.05, 0.2, 0.5, 0.9])
        opts["structured_options.category.max_sample_size_to_check_stop_condition"] = extra["max"]
        opts["structured_options.category.stop_condition_unique_value_ratio"] = extra["ratio"]
    p = {"cols": gen.names(rng, ncols), "rows": rows, "opts": {"set": opts}, "mode": mode, "x": extra}
    ids = list(range(nrows))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    else:  # runs of equal values: a value can be heavy in one batch and absent in the next
        if rng.random() < 0.5:
            ids.sort(key=lambda i: rows[i][0])
    bs = gen.batches(rng, ids, 8)
    ops, live, nxt = [], [], 0
    nodes = rng.choice([1, 1, 2, 3])
    while bs:
        if len(live) < nodes:
            name = f"n{nxt}"
            nxt += 1
            live.append(name)
        else:
            name = rng.choice(live)
        ops.append(["deliver", name, bs.pop(0), "global"])
        if rng.random() < 0.3:
            ops.append(["report", name])
        if len(live) > 1 and rng.random() < 0.35:
            a, c = rng.sample(live, 2)
            ops.append(["merge", a, c, f"n{nxt}"])
            live = [x for x in live if x not in (a, c)] + [f"n{nxt}"]
            nodes = max(1, nodes - 1)
            nxt += 1
    while len(live) > 1:
        a, c = rng.sample(live, 2)
        ops.append(["merge", a, c, f"n{nxt}"])
        live = [x for x in live if x not in (a, c)] + [f"n{nxt}"]
        nxt += 1
    p["ops"] = ops
    return p


class Cat:
    """State machine for one column of one node."""

    def __init__(self):
        self.counts, self.n, self.stopped, self.frozen = {}, 0, False, None

    def copy(self):
        c = Cat()
        c.counts, c.n, c.stopped, c.frozen = dict(self.counts), self.n, self.stopped, self.frozen
        return c

    def feed(self, values, mode, x):
        if not values or self.stopped:
            return
        for v in values:
            self.counts[v] = self.counts.get(v, 0) + 1
        self.n += len(values)
        self.maybe_stop(mode, x)

    def maybe_stop(self, mode, x):
        u = len(self.counts)
        if mode == "stop" and self.n and self.n >= x["max"] and u / self.n >= x["ratio"]:
            self.stopped, self.frozen = True, (u, u / self.n)

    @staticmethod
    def merge(a, b, mode, x):
        c = Cat()
        if a.stopped or b.stopped:
            big = a if a.n > b.n else b
            c.stopped = True
            c.n = big.n
            c.frozen = big.frozen if big.stopped else (len(big.counts), len(big.counts) / big.n if big.n else 0)
            return c
        c.counts = dict(a.counts)
        for k, v in b.counts.items():
            c.counts[k] = c.counts.get(k, 0) + v
        c.n = a.n + b.n
        c.maybe_stop(mode, x)
        return c


def check(fl, name, models, env):
    if name not in fl.nodes:
        return
    mode, x = fl.plan["mode"], fl.plan["x"]
    rep = fl.report(name)
    for c, col in enumerate(rep["data_stats"]):
        st, m = col["statistics"], models[name][c]
        lab = f"node {name} column {c} mode={mode}{x}"

        def bad(kind, msg):
            raise Violation(kind, f"{lab}: {msg}")

        env.state_keys.add(f"{mode}/{m.stopped}/{fl.nodes[name].merged}/{len(m.counts)}")
        if m.n == 0 and not m.stopped:
            continue
        if m.stopped:
            env.probe("stopped_column_checked")
            if col["categorical"] is not False:
                bad("stop:categorical", "column still called categorical after the stop condition was met")
            if st["unique_count"] != m.frozen[0] or abs(st["unique_ratio"] - m.frozen[1]) > 1e-9:
                bad("stop:frozen", f"unique {st['unique_count']}/{st['unique_ratio']}, stopped at {m.frozen}")
            continue
        cnt = st.get("categorical_count")
        if mode == "cms":
            thr = m.n / x["hh"]
            heavy = {k: v for k, v in m.counts.items() if v >= thr}
            if st["unique_count"] < len(heavy):
                bad("cms:unique_count", f"{st['unique_count']} categories kept, {len(heavy)} values are heavy")
            if cnt is None:
                continue
            env.probe("cms_counts_checked")
            for k, v in heavy.items():
                if k not in cnt:
                    bad("cms:lost-heavy-hitter", f"{k!r} occurs {v} times of {m.n} (threshold {thr:.2f}) but is not reported: {dict(cnt)}")
            for k, v in cnt.items():
                t = m.counts.get(k, 0)
                if v < t:
                    bad("cms:undercount", f"{k!r} reported {v}, occurs {t}")
                if v > t + max(1, 0.02 * m.n):
                    bad("cms:overcount", f"{k!r} reported {v}, occurs {t}")
                if v < thr - 1e-9:
                    bad("cms:light", f"{k!r} reported with {v} < threshold {thr}")
            continue
        u = len(m.counts)
        if st["unique_count"] != u or abs(st["unique_ratio"] - u / m.n) > 1e-9:
            bad("unique", f"unique {st['unique_count']}/{st['unique_ratio']}, rows say {u}/{u / m.n}")
        if cnt is None:
            if col["categorical"]:
                bad("counts-missing", "categorical column without counts")
            continue
        if mode == "topk":
            k = x["k"]
            want = sorted(m.counts.values(), reverse=True)[:k]
            got = list(cnt.values())
            if got != want:
                bad("topk", f"reported {dict(cnt)}, the {k} most frequent counts are {want}")
            for key, v in cnt.items():
                if m.counts.get(key) != v:
                    bad("topk-count", f"{key!r} reported {v}, occurs {m.counts.get(key)}")
        elif dict(cnt) != m.counts:
            bad("counts", f"reported {dict(cnt)}, rows say {m.counts}")
        if list(cnt.values()) != sorted(cnt.values(), reverse=True):
            bad("count-order", f"counts not descending: {dict(cnt)}")


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    mode, x = plan["mode"], plan["x"]
    models = {}
    for op in plan["ops"]:
        env.log(op[0], op[1], op[2] if op[0] == "merge" else len(op[2]) if op[0] == "deliver" else None)
        if op[0] == "deliver":
            ids = fl.ids(op[2])
            if not ids:
                continue
            fl.deliver(op[1], ids, op[3])
            ms = models.setdefault(op[1], [Cat() for _ in fl.cols])
            for c, m in enumerate(ms):
                m.feed([fl.rows[i][c] for i in ids if fl.rows[i][c] != ""], mode, x)
        elif op[0] == "merge":
            if fl.merge(op[1], op[2], op[3]):
                models[op[3]] = [Cat.merge(a, b, mode, x) for a, b in zip(models[op[1]], models[op[2]])]
                check(fl, op[3], models, env)
        else:
            check(fl, op[1], models, env)
    for n in sorted(fl.nodes):
        check(fl, n, models, env)


def nontrivial(plan, env):
    return env.steps >= 2
