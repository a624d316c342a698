"""P10: the difference of two profiles says what their reports say."""
import copy
import math
import re

from .. import canon, fleet, gen, refmodel
from ..core import Violation, call
from . import p01, p07

ID = "P10"
RUNS = {"quick": (420, 300), "thorough": (12000, 3000)}
RULE = (
    "one run = a delivery and merge history over several profiles; every pair is compared with diff at seeded moments and at the end; each entry must be what the two reports give (difference, both values, or the split of the lists), "
    "the opposite difference must be its mirror image, the difference to itself and to a profile with the same history must be unchanged everywhere; non-trivial = a difference between two different profiles"
)
STATES = "(data types of the two columns, categorical?, entries changed?)"
REAL = p01.REAL + ["StructuredProfiler.diff and every column diff"]
STUB = p01.STUB
SHRINK = p01.SHRINK
SAME = "unchanged"
NUMS = {"min": "min", "max": "max", "sum": "sum", "mean": "mean", "median": "median", "variance": "variance", "stddev": "stddev", "median_absolute_deviation": "median_abs_deviation"}
OPTS = [
    {},
    {},
    {"structured_options.chi2_homogeneity.is_enabled": True},
    {"structured_options.correlation.is_enabled": True},
    {"structured_options.row_statistics.unique_count.hashing_method": "hll"},
    {"structured_options.category.top_k_categories": 2},
    {"structured_options.category.cms": True},
    {"structured_options.category.max_sample_size_to_check_stop_condition": 4, "structured_options.category.stop_condition_unique_value_ratio": 0.5},
    {"structured_options.*.histogram_and_quantiles.bin_count_or_method": 10},
]


def plan(rng, tier):
    p = p07.plan(rng, tier)
    o = p["opts"]["set"]
    for e in p07.EXTRA:
        for k in e:
            o.pop(k, None)
    if o.get("structured_options.category.is_enabled") is not False:
        o.update(rng.choice(OPTS))
    if rng.random() < 0.7:
        o.pop("structured_options.datetime.is_enabled", None)
    if rng.random() < 0.3:
        p["opts"]["labeler"] = True
        o["structured_options.datetime.is_enabled"] = False
    out = []
    for op in p["ops"]:
        if op[0] == "report":
            op = ["diff", op[1], None]
        out.append(op)
    p["ops"] = out
    n = len(p["cols"])
    if n > 1 and rng.random() < 0.3:  # profiles whose columns come in another order, or that have other columns
        p["perms"] = {f"n{k}": gen.perm(rng, n, 1.0) for k in range(5) if rng.random() < 0.4}
        if rng.random() < 0.5:
            p["foreign"] = sorted(rng.sample(range(n), rng.randint(1, n - 1)))
    if rng.random() < 0.3:  # a profile for which less was asked
        p["less"] = rng.sample(["int", "float", "text", "order", "category"], rng.choice([1, 1, 2]))
    return p


def rep(env, prof):
    return call(env, "report", prof.report, {"output_format": "serializable"})


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def close(a, b, scale):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return abs(a - b) <= 1e-9 * max(1e-300, scale) or a == b


def check_number(what, d, x, y):
    if x is None and y is None:
        ok = d == SAME
    elif x is None or y is None:
        ok = canon.same(canon.canon(d), [x, y])
    elif isnan(x) or isnan(y):
        ok = d == SAME or isnan(d)  # no number to compare
        if isnan(x) != isnan(y):
            ok = isnan(d)
    else:
        sc = max(abs(x), abs(y))
        if d == SAME:
            ok = close(x, y, sc)
        else:
            ok = num(d) and close(d, x - y, sc) and (d != 0)
    if not ok:
        raise Violation("wrong:" + what[1], f"{what[0]}: diff says {d!r}, reports say {x!r} and {y!r}")


def check_text(what, d, x, y):
    if d != (SAME if x == y else [x, y]):
        raise Violation("wrong:" + what[1], f"{what[0]}: diff says {d!r}, reports say {x!r} and {y!r}")


def rp(v):
    return repr(v + 0.0 if isinstance(v, float) else v)  # no negative zero


def check_lists(what, d, x, y):
    if x is None and y is None:
        ok = d == SAME
    elif x is None or y is None:
        ok = canon.same(canon.canon(d), canon.canon([x, y]))
    else:
        x, y = list(canon.canon(x)), list(canon.canon(y))
        if sorted(map(rp, x)) == sorted(map(rp, y)):
            ok = d == SAME
        else:
            ok = isinstance(d, list) and len(d) == 3
            if ok:
                a, s, b = (sorted(map(rp, canon.canon(v))) for v in d)
                ok = sorted(a + s) == sorted(map(rp, x)) and sorted(s + b) == sorted(map(rp, y)) and not set(a) & set(b)
    if not ok:
        raise Violation("wrong:" + what[1], f"{what[0]}: diff says {d!r}, reports say {x!r} and {y!r}")


def check_dict(what, d, x, y):
    """Lists or sets by key: those of one, the differences of the shared ones, those of the other."""
    x, y = canon.canon(x or {}), canon.canon(y or {})
    if not x and not y:
        if d != SAME:
            raise Violation("wrong:" + what[1], f"{what[0]}: diff says {d!r}, reports say {x!r} and {y!r}")
        return
    if d == SAME and x == y:
        return
    d = canon.canon(d)
    ok = isinstance(d, list) and len(d) == 3
    norm = lambda m: {str(k): sorted(map(repr, v)) for k, v in m.items()}  # noqa: E731
    if ok:
        ok = norm(d[0]) == norm({k: v for k, v in x.items() if k not in y}) and norm(d[2]) == norm({k: v for k, v in y.items() if k not in x}) and sorted(map(str, d[1])) == sorted(str(k) for k in x if k in y)
    if not ok:
        raise Violation("wrong:" + what[1], f"{what[0]}: diff says {d!r}, reports say {x!r} and {y!r}")
    for k in d[1]:
        check_lists(what, d[1][k], x[k], y[k])


def t_test(sa, sb, na, nb):
    """Welch's t and degrees of freedom from the two reports, or None."""
    if na <= 1 or nb <= 1 or isnan(sa["variance"]) or isnan(sb["variance"]):
        return None
    va, vb = sa["variance"] / na, sb["variance"] / nb
    if va + vb == 0:
        return None
    t = (sa["mean"] - sb["mean"]) / math.sqrt(va + vb)
    df = (va + vb) ** 2 / (va * va / (na - 1) + vb * vb / (nb - 1))
    return t, df


def leaf_paths(x, pre=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaf_paths(v, pre + (k,))
    else:
        yield pre, x


def check_pair(env, fl, a, b, A=None, B=None, twin=False):
    """Check diff(a, b) against the reports of both."""
    A = A or fl.nodes[a]
    B = B or fl.nodes[b]
    ra, rb = rep(env, A.prof), rep(env, B.prof)
    d = call(env, "diff", A.prof.diff, B.prof)
    env.log("diff", a, b)
    env.pairs = getattr(env, "pairs", 0) + (a != b)
    ga, gb, g = ra["global_stats"], rb["global_stats"], d["global_stats"]
    where = f"diff({a}, {b})"
    for f in ("samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio", "duplicate_row_count"):
        check_number((where, f), g[f], ga[f], gb[f])
    for f in ("file_type", "encoding"):
        check_text((where, f), g[f], ga[f], gb[f])
    for f in ("correlation_matrix", "chi2_matrix"):
        x, y = ga.get(f), gb.get(f)
        got = canon.canon(g[f])
        if x is None or y is None or len(x) != len(y):
            ok = got is None
        else:
            fx = [float("nan") if v is None else float(v) for r in canon.canon(x) for v in r]
            fy = [float("nan") if v is None else float(v) for r in canon.canon(y) for v in r]
            w = [p - q for p, q in zip(fx, fy)]
            if got == SAME:
                ok = all(isnan(v) or abs(v) < 1e-9 for v in w)
            else:
                fg = [float("nan") if v is None else float(v) for r in got for v in r]
                ok = len(fg) == len(w) and all(close(p, q, 1) for p, q in zip(fg, w)) and any(v for v in fg if not isnan(v))
        if not ok:
            raise Violation("wrong:" + f, f"{where}: {f} {got!r}, reports say {x!r} and {y!r}")
    names = [[fl.cols[c] for c in x.order] for x in (A, B)]
    schemas = []
    for ns in names:
        sc = {}
        for i, x in enumerate(ns):
            sc.setdefault(x, []).append(i)
        schemas.append(sc)
    check_dict((where, "profile_schema"), g["profile_schema"], *schemas)
    same_order = [fl.cols[c] for c in A.order] == [fl.cols[c] for c in B.order]
    if not same_order:
        if len(d["data_stats"]) not in (0, len(ra["data_stats"])):
            raise Violation("wrong:data_stats", f"{where}: {len(d['data_stats'])} columns for profiles with columns {names}")
        by = [{c["column_name"]: c for c in r["data_stats"]} for r in (ra, rb)]
        for c in d["data_stats"]:  # if columns are compared at all, they are those of the same name
            x, y = (m.get(c["column_name"]) for m in by)
            if x is None or y is None:
                raise Violation("wrong:data_stats", f"{where}: column {c['column_name']!r} is compared, the profiles have {names}")
            for f in ("sample_size", "null_count"):
                check_number((where, f), c["statistics"][f], x["statistics"][f], y["statistics"][f])
            for f in ("min", "max", "sum", "unique_count"):
                v = [z["statistics"].get(f) for z in (x, y, c)]
                if all(num(z) for z in v[:2]) and x["data_type"] == y["data_type"] and x["data_type"] != "datetime":
                    check_number((where, f), v[2], v[0], v[1])
        return d
    if len(d["data_stats"]) != len(ra["data_stats"]):
        raise Violation("wrong:data_stats", f"{where}: {len(d['data_stats'])} columns")
    o = fl.opts_spec["set"]
    plain_cat = "structured_options.category.cms" not in o and "structured_options.category.top_k_categories" not in o
    for pos, c in enumerate(d["data_stats"]):
        ca, cb = ra["data_stats"][pos], rb["data_stats"][pos]
        sa, sb, s = ca["statistics"], cb["statistics"], c["statistics"]
        at = f"{where} column {ca['column_name']!r}"
        if c["column_name"] != ca["column_name"]:
            raise Violation("wrong:column_name", f"{at}: {c['column_name']!r}")
        for f in ("sample_size", "null_count"):
            check_number((at, f), s[f], sa[f], sb[f])
        check_lists((at, "null_types"), s["null_types"], sa["null_types"], sb["null_types"])
        check_dict((at, "null_types_index"), s["null_types_index"], sa["null_types_index"], sb["null_types_index"])
        for col in (ca, cb):
            if col["data_type"] == "string":
                col["data_type"] = "text"  # reports have another word for it
        if ca["data_type"] is None and cb["data_type"] is None:
            pass
        else:
            check_text((at, "data_type"), c["data_type"], ca["data_type"], cb["data_type"])
        if "order" in ca and c.get("order") is not None:
            check_text((at, "order"), c["order"], ca["order"], cb["order"])
        if "categorical" in ca and c.get("categorical") is not None:
            check_text((at, "categorical"), c["categorical"], ca["categorical"], cb["categorical"])
            for f in ("unique_count", "unique_ratio"):
                check_number((at, f), s[f], sa.get(f), sb.get(f))
            if ca["categorical"] and cb["categorical"] and plain_cat:
                for f in ("gini_impurity", "unalikeability"):
                    check_number((at, f), s[f], sa[f], sb[f])
                check_lists((at, "categories"), s["categories"], sa["categories"], sb["categories"])
                cx, cy, cd = sa["categorical_count"], sb["categorical_count"], s["categorical_count"]
                if not cx and not cy:
                    pass
                else:
                    if sorted(cd) != sorted({**cx, **cy}):
                        raise Violation("wrong:categorical_count", f"{at}: {cd!r}, reports say {cx!r} and {cy!r}")
                    for k in cd:
                        check_number((at, "categorical_count"), cd[k], cx.get(k, 0), cy.get(k, 0))
        rx, ry, rd = sa.get("data_type_representation"), sb.get("data_type_representation"), s.get("data_type_representation")
        if rx and ry and rd:
            rx, ry = ({"text" if k == "string" else k: v for k, v in r.items()} for r in (rx, ry))
            for k in rd:
                check_number((at, "data_type_representation"), rd[k], rx.get(k), ry.get(k))
        if fl.opts_spec.get("labeler"):
            for f, h in (("avg_predictions", "avg_predictions"), ("label_representation", "data_label_representation")):
                x, y, z = sa.get(h) or sa.get(f), sb.get(h) or sb.get(f), s.get(f)
                if x and y and isinstance(z, dict):
                    for k in z:
                        check_number((at, f), z[k], x.get(k), y.get(k))
            la, lb = ca["data_label"], cb["data_label"]
            check_lists((at, "data_label"), c["data_label"], la.split("|") if la else None, lb.split("|") if lb else None)
        t = ca["data_type"]
        env.state_keys.add(f"{t}/{cb['data_type']}/{ca.get('categorical')}{cb.get('categorical')}/{a == b}")
        psi = s.get("psi")
        if psi is not None and not (psi >= -1e-12):
            raise Violation("wrong:psi", f"{at}: psi {psi!r} is negative")
        if t != cb["data_type"] or t is None:
            continue
        if t == "datetime":
            dates = [[x["statistics"].get(f) for x in (ca, cb)] for f in ("min", "max")]
            for f, (x, y) in zip(("min", "max"), dates):
                dx, dy = refmodel.as_date(str(x)), refmodel.as_date(str(y))
                if dx is None or dy is None:
                    continue
                if (s[f] == SAME) != (dx == dy):
                    raise Violation("wrong:datetime_" + f, f"{at}: {f} {s[f]!r}, reports say {x!r} and {y!r}")
                if dx != dy and (s[f][:1] == "+") != (dx > dy):
                    raise Violation("wrong:datetime_" + f, f"{at}: {f} {s[f]!r}, reports say {x!r} and {y!r}")
                m = re.match(r"^[+-](\d+) days?", s[f])
                if dx != dy and abs(dx - dy).days != (int(m.group(1)) if m else 0):
                    raise Violation("wrong:datetime_" + f, f"{at}: {f} {s[f]!r}, reports say {x!r} and {y!r}")
            check_lists((at, "format"), s["format"], sa["format"], sb["format"])
            continue
        for f, h in NUMS.items():
            if h in sa and h in sb and f in s:
                check_number((at, f), s[f], sa[h], sb[h])
        if "mode" in sa and "mode" in sb:
            check_lists((at, "mode"), s["mode"], sa["mode"], sb["mode"])
        if t == "text" and sa.get("vocab") is not None and sb.get("vocab") is not None:
            check_lists((at, "vocab"), s["vocab"], sa["vocab"], sb["vocab"])
        if t == "float" and isinstance(s.get("precision"), dict) and sa.get("precision") and sb.get("precision"):
            for k in s["precision"]:
                check_number((at, "precision." + k), s["precision"][k], sa["precision"][k], sb["precision"][k])
        na, nb = sa["sample_size"] - sa["null_count"], sb["sample_size"] - sb["null_count"]
        if "mean" in sa and sa.get("mean") is not None and sb.get("mean") is not None and sa.get("variance") is not None and sb.get("variance") is not None:
            w = t_test(sa, sb, na, nb)
            got = s["t-test"]["t-statistic"]
            if w is not None and got is not None and not isnan(got):
                sc = abs(sa["mean"]) / math.sqrt(sa["variance"] / na + sb["variance"] / nb)
                if abs(w[0] - got) > 1e-6 * max(1, abs(got), sc):
                    raise Violation("wrong:t-test", f"{at}: t {got!r}, reports give {w[0]!r}")
                got = s["t-test"]["welch"]["deg_of_free"]
                if abs(w[1] - got) > 1e-5 * max(1, abs(got)):
                    raise Violation("wrong:t-test-df", f"{at}: degrees of freedom {got!r}, reports give {w[1]!r}")
                got = s["t-test"]["conservative"]["deg_of_free"]
                if got != min(na, nb) - 1:
                    raise Violation("wrong:t-test-df", f"{at}: conservative degrees of freedom {got!r}, reports give {min(na, nb) - 1!r}")
                import scipy.stats

                for k in ("welch", "conservative"):
                    p = 2 * scipy.stats.t.sf(abs(s["t-test"]["t-statistic"]), s["t-test"][k]["deg_of_free"])
                    if abs(p - s["t-test"][k]["p-value"]) > 1e-8:
                        raise Violation("wrong:t-test-p", f"{at}: p-value {s['t-test'][k]['p-value']!r}, t and degrees of freedom give {p!r}")
    return d


TESTS = {"t-test", "chi2-test", "psi", "t-statistic", "column_name"}


def check_same(env, d, what):
    for path, v in leaf_paths({"global_stats": d["global_stats"]}):
        if path[1] == "profile_schema":
            continue
        if not (isinstance(v, str) and v == SAME) and v is not None:
            raise Violation("self-diff:" + path[-1], f"{what}: {'/'.join(map(str, path))} is {v!r}")
    for c in d["data_stats"]:
        for path, v in leaf_paths(c):
            if TESTS & set(path):
                bad = path[-1] in ("t-statistic", "chi2-statistic", "psi") and v is not None and not isnan(v) and abs(v) > 1e-9
                bad = bad or (path[-1] == "p-value" and v is not None and not isnan(v) and abs(v - 1) > 1e-9)
            elif "null_types_index" in path:
                bad = isinstance(v, list) and len(v) == 3 and (canon.canon(v[0]) or canon.canon(v[2]))
            else:
                bad = not (isinstance(v, str) and v == SAME) and v is not None and not isnan(v)
            if bad:
                raise Violation("self-diff:" + str(path[-1]), f"{what}: column {c['column_name']!r} {'/'.join(map(str, path))} is {v!r}")


def mirror(env, x, y, what, path=()):
    """y must be the mirror image of x."""
    if path and path[-1] in ("column_name", "deg_of_free", "p-value", "chi2-statistic"):
        if path[-1] != "column_name" and num(x) and num(y) and not close(x, y, max(abs(x), abs(y), 1)):
            raise Violation("not-mirrored:" + str(path[-1]), f"{what}: {'/'.join(map(str, path))} {x!r} and {y!r}")
        return
    if path and path[-1] == "psi":
        return
    bad = False
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y):
            bad = True
        else:
            for k in x:
                mirror(env, x[k], y[k], what, path + (k,))
            return
    elif isinstance(x, str) and x[:1] in "+-" and isinstance(y, str):
        bad = x[1:] != y[1:] or x[0] == y[0]
    elif num(x) and num(y):
        bad = not close(x, -y, max(abs(x), abs(y))) and not (isnan(x) and isnan(y))
    elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        if path[-1] in ("correlation_matrix", "chi2_matrix"):
            bad = not canon.same(canon.canon(x), [[None if v is None else -v for v in r] for r in canon.canon(y)], 1e-9, 1e-9)
        elif x and all(isinstance(v, list) for v in x) and len(x) == 3:
            bad = [sorted(map(rp, canon.canon(v))) for v in x] != [sorted(map(rp, canon.canon(v))) for v in y[::-1]]
        elif len(x) == 3:
            bad = False
        else:
            bad = not canon.same(canon.canon(x), canon.canon(y)[::-1])
    else:
        bad = repr(x) != repr(y)
    if bad:
        raise Violation("not-mirrored:" + str(path[-1]), f"{what}: {'/'.join(map(str, path))} {x!r} and {y!r}")


def both(env, fl, a, b):
    d = check_pair(env, fl, a, b)
    if a == b:
        check_same(env, d, f"diff({a}, {a})")
        return
    e = check_pair(env, fl, b, a)
    strip = lambda r: {"g": {k: canon.canon(v) for k, v in r["global_stats"].items() if k != "profile_schema"}, "c": {str(i): dict(c) for i, c in enumerate(r["data_stats"])}}  # noqa: E731
    mirror(env, strip(d), strip(e), f"diff({a}, {b}) and diff({b}, {a})")


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    for k, op in enumerate(plan["ops"]):
        if op[0] == "diff":
            if op[1] in fl.nodes:
                for n in sorted(fl.nodes)[-2:]:
                    both(env, fl, op[1], n)
            continue
        env.log(op[0], op[1], op[2] if op[0] == "merge" else None)
        p07.salted(env, plan, fl, k, op)
    names = sorted(fl.nodes)
    for i, a in enumerate(names[-3:]):
        for b in names[-3:][i:]:
            both(env, fl, a, b)
    if plan.get("foreign") and names:
        keep = [c for c in plan["foreign"] if c < len(fl.cols)]
        ids = fl.ids(fl.nodes[names[-1]].rows[:6])
        if keep and ids and len(keep) < len(fl.cols):
            df = fl.frame(ids).iloc[:, keep]
            other = fleet.Node(call(env, "profile", fl.dp.StructuredProfiler, df, options=fl.options), ids, order=keep)
            check_pair(env, fl, names[-1], "foreign", B=other)
            check_pair(env, fl, "foreign", names[-1], A=other)
    if plan.get("less") and names and not any("chi2" in k or "correlation" in k or "null_replication" in k for k in fl.opts_spec["set"]):
        ids = fl.ids(fl.nodes[names[-1]].rows)[-8:]
        on = [t for t in fl.types if t not in plan["less"]]
        if ids and on:
            spec = copy.deepcopy(fl.opts_spec)
            spec.setdefault("set", {}).update({f"structured_options.{t}.is_enabled": False for t in plan["less"]})
            order = list(fl.nodes[names[-1]].order)
            df = fl.frame(ids).iloc[:, order]
            other = fleet.Node(call(env, "profile", fl.dp.StructuredProfiler, df, options=fleet.make_options(fl.dp, spec)), ids, order=order)
            env.probe("diff_of_other_options")
            check_pair(env, fl, names[-1], "less", B=other)
            check_pair(env, fl, "less", names[-1], A=other)
    # a profile with the same history
    if names:
        n = names[-1]
        twin = p07.isolated(env, plan, n)
        if twin is not None:
            check_same(env, call(env, "diff", fl.nodes[n].prof.diff, twin.prof), f"diff of {n} and a profile with the same history")
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "pairs", 0) > 0
