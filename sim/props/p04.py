"""P04: histograms conserve values and quantiles stay true to the data."""
import bisect
import math

from .. import fleet, gen
from ..core import Violation
from ..fleet import call
from . import p01, p02

ID = "P04"
RUNS = {"quick": (1200, 300), "thorough": (20000, 3000)}
RULE = (
    "one run = numeric or text columns delivered in batches to one or more nodes, merged in any tree and updated after merging, with default or "
    "user-set bin counts; after every step the histogram and the quantiles of every node are checked; non-trivial = at least two batches or one merge"
)
STATES = "(data type, bins option, merged?, batches)"
REAL = p01.REAL
STUB = p01.STUB
SHRINK = p01.SHRINK


def plan(rng, tier):
    kinds = ["int", "float", "zero", "const", "intfloat", "offset", "negative", "bigint", "text", "phase", "cat"]
    ncols = rng.choice([1, 1, 2])
    nrows = rng.choice([2, 4, 8, 16, 30, 60])
    ks, rows = gen.table(rng, ncols, nrows, kinds)
    opts = {
        "structured_options.datetime.is_enabled": False,
        "structured_options.order.is_enabled": False,
        "structured_options.category.is_enabled": False,
    }
    bins = rng.choice([None, None, 1, 3, 10, "sturges", "auto", "rice"])
    if bins is not None:
        opts["structured_options.*.histogram_and_quantiles.bin_count_or_method"] = bins
    nq = rng.choice([None, None, 2, 3, 4, 20, 100])
    if nq:
        opts["structured_options.*.histogram_and_quantiles.num_quantiles"] = nq
    topk = rng.choice([None, None, 1, 2, 3, 8])
    if topk:
        opts["structured_options.*.mode.top_k_modes"] = topk
    off = [f for f in ("mode", "median", "median_abs_deviation") if rng.random() < 0.12]
    for f in off:
        opts[f"structured_options.*.{f}.is_enabled"] = False
    p = {"kinds": ks, "cols": gen.names(rng, ncols), "rows": rows, "opts": {"set": opts}, "bins": bins}
    p.update(nq=nq, topk=topk, off=off, groups=rng.choice([None, None, 1, 2, 3, 5, 10, 1001]))
    ids = list(range(nrows))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    bs = gen.batches(rng, ids, 7)
    ops, live, nxt = [], [], 0
    nodes = rng.choice([1, 2, 3])
    while bs:
        if len(live) < nodes:
            name = f"n{nxt}"
            nxt += 1
            live.append(name)
        else:
            name = rng.choice(live)
        ops.append(["deliver", name, bs.pop(0), "global"])
        if rng.random() < 0.3:
            ops.append(["report", name])
        if len(live) > 1 and rng.random() < 0.35:
            a, c = rng.sample(live, 2)
            ops.append(["merge", a, c, f"n{nxt}"])
            live = [x for x in live if x not in (a, c)] + [f"n{nxt}"]
            nodes = max(1, nodes - 1)
            nxt += 1
    while len(live) > 1:
        a, c = rng.sample(live, 2)
        ops.append(["merge", a, c, f"n{nxt}"])
        live = [x for x in live if x not in (a, c)] + [f"n{nxt}"]
        nxt += 1
    p["ops"] = ops
    return p


def check(fl, name, env, steps):
    nd = fl.nodes.get(name)
    if nd is None:
        return
    off = fl.plan.get("off") or []
    want_nq = fl.plan.get("nq") or 1000
    groups = fl.plan.get("groups")
    rep = call(env, "report", nd.prof.report, {"num_quantile_groups": groups} if groups else None)
    for c, col in enumerate(rep["data_stats"]):
        m = fl.column_model(nd.rows, c)
        xs = m.numbers()
        if not xs:
            continue
        st = col["statistics"]
        lab = f"node {name} column {c} ({m.data_type()}, {len(xs)} values)"
        xs = sorted(xs)
        lo, hi, n = xs[0], xs[-1], len(xs)
        rng_ = hi - lo
        eps = 1e-9 * max(1.0, abs(lo), abs(hi))

        def bad(kind, msg):
            raise Violation(kind, f"{lab}: {msg}")

        h = st["histogram"]
        if h is None or h.get("bin_counts") is None:
            bad("histogram-missing", "no histogram although values were profiled")
        cnt = [float(x) for x in h["bin_counts"]]
        edges = [float(x) for x in h["bin_edges"]]
        if len(edges) != len(cnt) + 1:
            bad("histogram-shape", f"{len(edges)} edges for {len(cnt)} bins")
        if min(cnt) < 0 or any(abs(x - round(x)) > 1e-9 for x in cnt):
            bad("histogram-counts", f"non-integral or negative counts {cnt[:8]}")
        if abs(sum(cnt) - n) > 1e-6:
            bad("histogram-conservation", f"bins hold {sum(cnt)} values, {n} were profiled")
        if abs(edges[0] - lo) > eps or abs(edges[-1] - hi) > eps:
            bad("histogram-span", f"edges span {edges[0]}..{edges[-1]}, values span {lo}..{hi}")
        if any(b < a - eps for a, b in zip(edges, edges[1:])):
            bad("histogram-edges", "edges not ascending")
        if isinstance(fl.plan.get("bins"), int) and rng_ > eps and len(cnt) != fl.plan["bins"]:
            bad("histogram-bins", f"{len(cnt)} bins, the user asked for {fl.plan['bins']}")
        # rank-wise position of bin mass: cumulative counts may be off only by what can hide inside neighbouring cells
        nb = fl.plan["bins"] if isinstance(fl.plan.get("bins"), int) else 1000
        w = rng_ / nb
        drift = (steps + 2) * w + eps
        if m.data_type() in ("int", "string", "text"):
            drift += 1.0  # values are snapped to whole numbers between updates
        width = max(b - a for a, b in zip(edges, edges[1:]))
        cum = 0.0
        for k in range(len(cnt)):
            cum += cnt[k]
            e = edges[k + 1]
            below = sum(1 for x in xs if x <= e - drift - width)
            above = sum(1 for x in xs if x <= e + drift + width)
            if not (below - 1e-6 <= cum <= above + 1e-6):
                bad("histogram-mass", f"{cum} values up to {e}, data has between {below} and {above}")
        qs = st["quantiles"]
        q = [float(qs[k]) for k in sorted(qs)] if isinstance(qs, dict) else [float(x) for x in qs]
        if any(b < a - eps for a, b in zip(q, q[1:])):
            bad("quantiles-order", f"quantiles not ascending {q}")
        if q and (q[0] < lo - eps or q[-1] > hi + eps):
            bad("quantiles-range", f"quantiles {q[0]}..{q[-1]} outside {lo}..{hi}")
        asked = groups if groups and groups <= want_nq else min(4, want_nq)
        if len(q) != asked - 1:
            bad("quantile-groups", f"{len(q)} quantiles, {asked} groups out of {want_nq} quantiles were asked for")
        for k, v in enumerate(q):
            share = (k + 1) / asked
            pos_check(bad, "quantile-value", share, v, xs, drift, nb, math.ceil(share * want_nq - 1e-9) / want_nq)
        for stat in ("median", "mode", "median_abs_deviation"):
            v = st.get(stat)
            if stat in off and not (v is None or (isinstance(v, list) and all(math.isnan(x) for x in v)) or (not isinstance(v, list) and math.isnan(v))):
                bad("switched-off", f"{stat} was switched off, {v!r} is reported")
        if "median" in off:
            pass
        elif st.get("median") is not None and not math.isnan(st["median"]):
            pos_check(bad, "median-value", 0.5, float(st["median"]), xs, drift, nb)
        else:
            bad("median-missing", "no median although values were profiled")
        if "mode" not in off:
            modes = [float(v) for v in st.get("mode") or []]
            topk = fl.plan.get("topk") or 5
            if not 1 <= len(modes) <= topk:
                bad("mode-number", f"{len(modes)} modes, at most {topk} were asked for")
            for v in modes:
                if not lo - eps <= v <= hi + eps:
                    bad("mode-range", f"mode {v} outside {lo}..{hi}")
                if min(abs(v - x) for x in xs) > drift + w:
                    bad("mode-value", f"mode {v} is near no profiled value")
            ds = sorted(set(xs))
            # equal values may straddle two bins once a histogram was redistributed: only the first batch keeps them together
            one = len(ds) == n or (nd.batches == 1 and not nd.merged)
            if one and (len(ds) == 1 or min(b - a for a, b in zip(ds, ds[1:])) > 2 * (drift + w)):
                # every value has bins of its own: the modes are the most frequent values
                top = max(xs.count(x) for x in ds)
                best = [x for x in ds if xs.count(x) == top]
                env.probe("modes_checked")
                if len(modes) != min(topk, len(best)):
                    bad("mode-number", f"{len(modes)} modes {modes[:9]}, {len(best)} values are most frequent and {topk} modes were asked for")
                if any(min(abs(v - x) for x in best) > drift + w for v in modes):
                    bad("mode-value", f"modes {modes[:9]}, the most frequent values are {best[:9]}")
        if "median_abs_deviation" not in off:
            mad = st.get("median_abs_deviation")
            if mad is None or math.isnan(mad):
                bad("mad-missing", "no median absolute deviation")
            if not -eps <= mad <= rng_ + eps:
                bad("mad-range", f"deviation {mad} outside 0..{rng_}")
            if "median" not in off:
                devs = sorted(abs(x - float(st["median"])) for x in xs)
                pos_check(bad, "mad-value", 0.5, float(mad), devs, 2 * drift + 2 * w, nb)
        tight_check(bad, env, nd.prof, c, m.data_type(), st, q, asked, want_nq, eps)
        env.state_keys.add(f"{m.data_type()}/{fl.plan.get('bins')}/{nd.merged}/{min(nd.batches, 4)}")


def stored_histogram(prof, c, dtype):
    """The working histogram the estimates are read from; None if the tree keeps it elsewhere."""
    try:
        h = prof._profile[c].profiles["data_type_profile"]._profiles["text" if dtype == "string" else dtype]._stored_histogram["histogram"]
        return [float(x) for x in h["bin_counts"]], [float(x) for x in h["bin_edges"]]
    except (AttributeError, KeyError, TypeError, IndexError):
        return None


def tight_check(bad, env, prof, c, dtype, st, q, asked, want_nq, eps):
    """Median, quantiles and deviation against the working histogram itself, mass spread evenly within a bin."""
    sh = stored_histogram(prof, c, dtype)
    if not sh or len(sh[1]) != len(sh[0]) + 1 or sum(sh[0]) <= 0:
        return
    cnt, edges = sh
    total = sum(cnt)
    cum = [0.0]
    for x in cnt:
        cum.append(cum[-1] + x / total)

    def share(v):
        if v < edges[0]:
            return 0.0
        if v >= edges[-1]:
            return 1.0
        k = bisect.bisect_right(edges, v) - 1
        d = edges[k + 1] - edges[k]
        return cum[k] + (cum[k + 1] - cum[k]) * ((v - edges[k]) / d if d > 0 else 1.0)

    env.probe("tight_checked")
    tol = 1e-6
    for k, v in enumerate(q):
        p1 = (k + 1) / asked
        p2 = math.ceil(p1 * want_nq - 1e-9) / want_nq
        if share(v - eps) > p2 + tol or share(v + eps) < p1 - tol:
            bad("quantile-share", f"quantile {p1:.3f} reported {v}, which has {share(v):.4f} of the histogram below it")
    med = st.get("median")
    if med is None or math.isnan(med):
        return
    med = float(med)
    if share(med - eps) > 0.5 + tol or share(med + eps) < 0.5 - tol:
        bad("median-share", f"median {med} has {share(med):.4f} of the histogram below it")
    mad = st.get("median_abs_deviation")
    if mad is None or math.isnan(mad):
        return
    mad = float(mad)

    def within(t):
        return share(med + t) - share(med - t) if t >= 0 else 0.0

    slack = 2 * eps + max(b - a for a, b in zip(edges, edges[1:]))  # read to within one bin
    if within(mad - slack) > 0.5 + tol or within(mad + slack) < 0.5 - tol:
        bad("mad-share", f"median absolute deviation {mad}: {within(mad):.4f} of the histogram lies that close to the median {med}; counts {[x for x in cnt if x][:6]} edges {edges[0]}..{edges[-1]}")


def pos_check(bad, kind, p, v, xs, drift, nb, p2=None):
    n = len(xs)
    a = max(0, math.ceil(p * n - 1e-9) - 2)
    b = min(n - 1, math.floor((p2 or p) * n + 1e-9) + 1)
    if not xs[a] - drift <= v <= xs[b] + drift:
        bad(kind, f"quantile {p:.3f} reported {v}, values of that rank lie in {xs[a]}..{xs[b]} (+-{drift:.4g})")


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    steps = 0
    for op in plan["ops"]:
        env.log(op[0], op[1], op[2] if op[0] == "merge" else len(op[2]) if op[0] == "deliver" else None)
        steps += 1
        if op[0] == "deliver":
            fl.deliver(op[1], op[2], op[3])
        elif op[0] == "merge":
            fl.merge(op[1], op[2], op[3])
            check(fl, op[3], env, steps)
        else:
            check(fl, op[1], env, steps)
    for n in sorted(fl.nodes):
        check(fl, n, env, steps)


def nontrivial(plan, env):
    return env.steps >= 2
