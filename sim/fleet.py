"""A simulated fleet of profilers.

Nodes receive batches of rows in an order the plan decides, may be merged into
new nodes in any tree, observed (report / diff), checkpointed to the simulated
disk and crashed (memory lost, last durable checkpoint reloaded).  Every node
carries a trivial model: the list of rows it has really been given.
"""
import json
import math
import re

from . import canon, labeler, refmodel
from .core import HarnessError, Violation, call


class Node:
    __slots__ = ("prof", "rows", "labels", "saved", "merged", "batches", "order")

    def __init__(self, prof, rows, labels=None, merged=False, batches=1, order=None):
        self.prof, self.rows = prof, rows
        self.labels = labels or []
        self.saved = None
        self.merged = merged
        self.batches = batches
        self.order = order  # position in the profile -> column of the table


def make_options(dp, spec, cache=None):
    o = dp.ProfilerOptions()
    base = {
        "structured_options.data_labeler.is_enabled": False,
        "structured_options.multiprocess.is_enabled": False,
        "structured_options.correlation.is_enabled": False,
        "structured_options.chi2_homogeneity.is_enabled": False,
        "structured_options.null_replication_metrics.is_enabled": False,
    }
    base.update(effective_set(spec))
    o.set(base)
    if spec.get("labeler"):
        cache = {} if cache is None else cache
        if "labeler" not in cache:
            cache["labeler"] = labeler.make(dp)
        o.set({"structured_options.data_labeler.is_enabled": True, "structured_options.data_labeler.data_labeler_object": cache["labeler"]})
        if spec.get("max_label_samples"):
            o.set({"structured_options.data_labeler.max_sample_size": spec["max_label_samples"]})
    if spec.get("nulls"):
        o.structured_options.null_values = {k: re.IGNORECASE if ic else 0 for k, ic in spec["nulls"]}
    if spec.get("colnulls"):
        o.structured_options.column_null_values = {c: {k: re.IGNORECASE if ic else 0 for k, ic in kv} for c, kv in spec["colnulls"]}
    return o


def effective_set(spec):
    """The options to set: correlation needs sums and deviations."""
    o = dict(spec.get("set") or {})
    if o.get("structured_options.correlation.is_enabled"):
        for k in list(o):
            if k.endswith((".sum.is_enabled", ".variance.is_enabled")):
                del o[k]
    return o


def stats_off(spec):
    """{data type: names of the statistics switched off}"""
    off = {}
    for k, v in effective_set(spec).items():
        x = k.split(".")
        if len(x) == 4 and x[3] == "is_enabled" and v is False:
            off.setdefault(x[1], set()).add(x[2])
    return off


def types_of(spec):
    off = set()
    for k, v in (spec.get("set") or {}).items():
        if k.endswith(".is_enabled") and v is False:
            n = k.split(".")[-2]
            if n in ("datetime", "int", "float", "text"):
                off.add(n)
    return tuple(t for t in ("datetime", "int", "float", "text") if t not in off)


DEFAULT_NULLS = [["", 0], ["nan", 1], ["none", 1], ["null", 1], ["  *", 0], ["--*", 0], ["__*", 0]]


class Fleet:
    def __init__(self, env, plan):
        import pandas as pd

        self.pd = pd
        self.env, self.plan, self.dp = env, plan, env.dp
        self.cols = plan["cols"]
        self.rows = plan["rows"]
        self.typed = plan.get("typed") or {}
        self.opts_spec = plan.get("opts") or {}
        self.types = types_of(self.opts_spec)
        self.bias = (self.opts_spec.get("set") or {}).get("structured_options.*.bias_correction.is_enabled", True)
        self.vocab = (self.opts_spec.get("set") or {}).get("structured_options.text.vocab.is_enabled", True)
        self.off = stats_off(self.opts_spec)
        self.ctor = dict(plan.get("ctor") or {})
        self.nodes = {}
        self.options = call(env, "options", make_options, self.dp, self.opts_spec, env.cache)
        self._model_cache = {}

    # ------------------------------------------------------------- data ----
    def frame(self, ids, index=None):
        cols = {}
        pd = self.pd
        data = [[self.rows[i][c] for i in ids] for c in range(len(self.cols))]
        df = pd.DataFrame(dict(enumerate(data)), dtype=object)
        if index is not None:
            df.index = list(index)
        else:
            df.index = list(ids)
        for c in range(len(self.cols)):
            t = self.typed.get(str(c))
            if t == "int":
                df[c] = df[c].map(lambda s: int(float(s)))
            elif t == "float":
                df[c] = df[c].map(lambda s: float(s) + 0.0 if s.strip() not in ("",) and refmodel.as_float(s) is not None else float("nan"))
            elif t == "none":
                df[c] = df[c].map(lambda s: None if s == "" else s)
        df.columns = self.cols
        return df

    def cell(self, rid, c):
        s = self.rows[rid][c]
        t = self.typed.get(str(c))
        if t == "int":
            return str(int(float(s)))
        if t == "float":
            v = refmodel.as_float(s)
            return str(float(s) + 0.0) if v is not None and s.strip() else "nan"
        if t == "none":
            return "None" if s == "" else s
        return s

    # -------------------------------------------------------------- ops ----
    def ids(self, ids):
        return [i for i in ids if i < len(self.rows)]

    def index_for(self, node, ids, mode):
        if mode == "reset":
            return list(range(len(ids)))
        if mode == "dup":  # labels repeat, as after concatenating frames
            return [k // 2 for k in range(len(ids))]
        if mode == "str":
            return [f"row-{i}" for i in ids]
        if mode == "rev":
            return list(range(len(ids)))[::-1]
        if isinstance(mode, int):
            return [mode + k for k in range(len(ids))]
        return list(ids)

    def names_distinct(self):
        return len({str(c).lower() for c in self.cols}) == len(self.cols)

    def deliver(self, name, ids, mode="global", perm=None, **kw):
        ids = self.ids(ids)
        if not ids:
            return None
        node = self.nodes.get(name)
        index = self.index_for(node, ids, mode)
        df = self.frame(ids, index)
        order = list(range(len(self.cols)))
        if node is None and self.opts_spec.get("colnulls"):
            perm = None  # column null values go by position in the first batch
        if perm and sorted(perm) == order and self.names_distinct():
            df = df.iloc[:, perm]
            order = list(perm)
            self.env.probe("columns_reordered")
        self.env.steps += 1
        if node is None:
            p = call(self.env, "profile", self.dp.StructuredProfiler, df, options=self.options, **dict(self.ctor, **kw))
            node = self.nodes[name] = Node(p, list(ids), [list(index)], order=order)
        else:
            call(self.env, "update", node.prof.update_profile, df, **kw)
            node.rows = node.rows + list(ids)
            node.labels = node.labels + [list(index)]
            node.batches += 1
        return node

    def merge(self, a, b, c):
        if a not in self.nodes or b not in self.nodes:
            return None
        A, B = self.nodes[a], self.nodes[b]
        self.env.steps += 1
        p = call(self.env, "merge", lambda: A.prof + B.prof)
        self.nodes[c] = Node(p, A.rows + B.rows, [*A.labels, *B.labels], True, A.batches + B.batches, order=A.order)
        return self.nodes[c]

    def report(self, name, fmt="serializable"):
        if name not in self.nodes:
            return None
        rep = call(self.env, "report", self.nodes[name].prof.report, {"output_format": fmt} if fmt else None)
        if fmt == "serializable":
            try:
                json.dumps(rep)
            except (TypeError, ValueError) as e:
                raise Violation("report-not-serializable", f"node {name}: json.dumps of the serializable report: {e!r}") from e
        return rep

    # ------------------------------------------------------------ model ----
    def null_test(self, c):
        pairs = self.opts_spec.get("nulls")
        mine = [kv for k, kv in self.opts_spec.get("colnulls") or [] if k == c]
        if not pairs and not mine:
            return refmodel.is_null
        return refmodel.null_test(list(pairs or DEFAULT_NULLS) + [x for kv in mine for x in kv])

    def column_model(self, rows, c):
        key = (tuple(rows), c)
        m = self._model_cache.get(key)
        if m is None:
            m = refmodel.ColumnModel([self.cell(i, c) for i in rows], self.types, self.bias, self.null_test(c))
            self._model_cache[key] = m
        return m


# ------------------------------------------------------------- comparing ----
def near(a, b, rel=1e-8, abs_=1e-9):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return canon.same(float(a), float(b), rel, abs_)


def expect(cond, kind, detail):
    if not cond:
        raise Violation(kind, detail)


def check_column_exact(col, m, label, merged=False, cms=False, vocab=True, off=None):
    """Compare one column report against the model, exact quantities only."""
    st = col["statistics"]

    def eq(field, got, want, rel=1e-8, abs_=1e-9):
        expect(near(got, want, rel, abs_), f"mismatch:{field}", f"{label}: {field} reported {got!r}, rows say {want!r}")

    eq("sample_size", st["sample_size"], len(m.cells))
    eq("null_count", st["null_count"], sum(m.nulls.values()))
    expect(
        sorted(st["null_types"]) == sorted(m.nulls),
        "mismatch:null_types",
        f"{label}: null_types {sorted(st['null_types'])!r}, rows say {sorted(m.nulls)!r}",
    )
    shown = col.get("samples")
    if shown is not None:
        have = _counter(m.values)
        odd = [v for v, k in _counter(shown).items() if k > have.get(v, 0)]
        expect(not odd and len(shown) <= 5, "mismatch:samples", f"{label}: samples {shown!r}, of which {odd!r} are not among the values")
    rep = st.get("data_type_representation")
    if not m.datetime_decided():
        return  # the datetime share of a mixed column is sampled by design
    if m.n:
        want = m.data_type()
        if want in ("string", "text") and "max" in (off or {}).get("text", ()) and col["data_type"] in ("string", "text"):
            want = col["data_type"]  # told apart by the longest text, which was not asked for
        eq("data_type", col["data_type"], want)
        if rep:
            for t in m.types:
                key = t
                if t == "text":
                    key = "string" if "string" in rep else "text"
                if t == "datetime" and not m.dates:
                    eq("data_type_representation", rep.get(key), 0.0)
                else:
                    eq("data_type_representation", rep.get(key), m.ratio(t))
    # categorical side
    if "unique_count" in st and not cms:
        cnt = _counter(m.values)
        eq("unique_count", st["unique_count"], len(cnt))
        eq("unique_ratio", st["unique_ratio"], len(cnt) / m.n if m.n else 0)
        if "categorical_count" in st:
            expect(
                dict(st["categorical_count"]) == dict(cnt),
                "mismatch:categorical_count",
                f"{label}: categorical_count {dict(st['categorical_count'])!r}, rows say {dict(cnt)!r}",
            )
            expect(sorted(st["categories"]) == sorted(cnt), "mismatch:categories", f"{label}: {sorted(st['categories'])!r} vs {sorted(cnt)!r}")
            if m.n:
                eq("gini_impurity", st["gini_impurity"], sum(v / m.n * (1 - v / m.n) for v in cnt.values()))
                eq("unalikeability", st["unalikeability"], (sum(v * (m.n - v) for v in cnt.values()) / (m.n * m.n - m.n)) if m.n > 1 else 0)
    t = m.data_type()
    if t == "datetime" and "min" in st:
        for f, want in (("min", min(m.dates)), ("max", max(m.dates))):
            expect(refmodel.as_date(str(st[f])) == want, f"mismatch:datetime_{f}", f"{label}: {f}={st[f]!r}, rows say {want}")
        fm = set()
        for v in m.values:
            for f in refmodel.DATE_FMTS:
                try:
                    import datetime

                    datetime.datetime.strptime(v, f)
                    fm.add(f)
                    break
                except ValueError:
                    pass
        expect(set(st["format"]) == fm, "mismatch:format", f"{label}: format {st['format']!r}, rows say {sorted(fm)!r}")
        return
    xs = m.numbers()
    if not xs:
        return
    mo = refmodel.moments(xs, m.bias)
    sc = max(abs(x) for x in xs) or 1.0

    skip = set((off or {}).get("text" if t == "string" else t, ()))
    if "sum" in skip:
        skip.add("mean")
    if "variance" in skip:
        skip.add("stddev")

    def num(field, want, rel=1e-8, abs_=1e-9):
        if field in skip:
            return
        if field in st and st[field] is not None:
            eq(field, st[field], want, rel, abs_)
        elif field in st:
            raise Violation(f"mismatch:{field}", f"{label}: {field} missing, rows say {want!r}")

    num("min", mo["min"])
    num("max", mo["max"])
    num("sum", mo["sum"], 1e-9, 1e-9 * sc * len(xs))
    num("mean", mo["mean"], 1e-9, 1e-9 * sc)
    num("variance", mo["variance"], 1e-7, 1e-10 * sc * sc)
    num("stddev", mo["stddev"], 1e-6, 1e-5 * sc if mo["degenerate"] else 1e-7 * sc)
    if not mo["degenerate"]:
        # conditioning: higher moments of data with a large offset lose digits
        cond = (mo["mean"] ** 2) / (mo["s2"] / len(xs)) if mo["s2"] else 1
        tol = min(0.5, 1e-7 * max(1.0, cond) ** 0.5)
        if "skewness" in mo:
            num("skewness", mo["skewness"], tol, tol * 10)
        if "kurtosis" in mo:
            num("kurtosis", mo["kurtosis"], tol, tol * 10)
    if t in ("int", "float"):
        num("num_zeros", sum(1 for x in xs if x == 0))
        num("num_negatives", sum(1 for x in xs if x < 0))
    if t == "float" and "precision" not in skip and st.get("precision"):
        pr = st["precision"]
        if True:
            d = [sig_digits_cached(v) for v in m.float_cells]
            pm = refmodel.moments([float(x) for x in d])
            eq("precision.min", pr["min"], min(d))
            eq("precision.max", pr["max"], max(d))
            eq("precision.sample_size", pr["sample_size"], len(d))
            p = max(d)  # reported to that many significant figures

            def sig(field, got, want):
                ok = [float("{:.{p}g}".format(want * f, p=p)) for f in (1, 1 + 1e-7, 1 - 1e-7)]
                expect(any(near(got, o, 1e-6, 1e-6) for o in ok), f"mismatch:{field}", f"{label}: {field} reported {got!r}, rows say {want!r} (to {p} figures)")

            sig("precision.mean", pr["mean"], pm["mean"])
            if len(d) > 1:
                sig("precision.var", pr["var"], pm["variance"])
                sig("precision.std", pr["std"], math.sqrt(pm["variance"]))
                moe = math.sqrt(pm["variance"] / len(d))
                lo, hi = (float("{:.{p}g}".format(z * moe, p=p)) for z in (3.29, 3.2911))
                expect(
                    lo - 1e-9 <= pr["margin_of_error"] <= hi + 1e-9,
                    "mismatch:precision.margin_of_error",
                    f"{label}: margin_of_error reported {pr['margin_of_error']!r}, rows say {3.2905267 * moe!r} (to {p} figures)",
                )
    if t in ("string", "text") and vocab and st.get("vocab") is not None:
        want = sorted(set("".join(m.values)))
        expect(sorted(st["vocab"]) == want, "mismatch:vocab", f"{label}: vocab {sorted(st['vocab'])!r}, rows say {want!r}")


def _counter(v):
    out = {}
    for x in v:
        out[x] = out.get(x, 0) + 1
    return out


_sig = {}


def sig_digits_cached(v):
    if v not in _sig:
        if len(_sig) > 100000:
            _sig.clear()
        _sig[v] = refmodel.sig_digits(v)
    return _sig[v]


def batch_order(vals):
    up = any(a < b for a, b in zip(vals, vals[1:]))
    down = any(a > b for a, b in zip(vals, vals[1:]))
    return "random" if up and down else "ascending" if up else "descending" if down else "constant value"


def expected_order(batches):
    """Order of a column from the values of each of its batches; None where nothing is claimed.

    Sorted batches count as sorted together if their ranges do not overlap, in whatever order they came.
    """
    batches = [b for b in batches if b]
    if not batches:
        return None
    nums = [[refmodel.as_float(v) for v in b] for b in batches]
    if not any(x is None for b in nums for x in b):
        batches = nums
    elif len(batches) > 1 and not all(None in b for b in nums):
        return None  # compared as numbers in some batches, as text in others
    ords = [batch_order(b) for b in batches]
    hulls = [(min(b), max(b)) for b in batches]
    kinds = set(ords)
    if "random" in kinds or kinds >= {"ascending", "descending"}:
        return "random"
    if len(batches) == 1:
        return ords[0]
    if min(h[0] for h in hulls) == max(h[1] for h in hulls):
        return "constant value"
    apart = all(a[1] <= b[0] or b[1] <= a[0] for i, a in enumerate(hulls) for b in hulls[:i])
    if "constant value" not in kinds and apart:
        return ords[0]
    if len(batches) == 2 and kinds != {"constant value"}:
        return "random" if not apart else next(o for o in ords if o != "constant value")
    return None


def check_order(fl, name, rep):
    node = fl.nodes[name]
    for pos, col in enumerate(rep["data_stats"]):
        c = node.order[pos]
        null, cells = fl.null_test(c), [fl.cell(i, c) for i in node.rows]
        parts, k = [], 0
        for lab in node.labels:
            parts.append([v for v in cells[k : k + len(lab)] if not null(v)])
            k += len(lab)
        want = expected_order(parts)
        got = col.get("order")
        if want is not None and k == len(cells) and got is not None:
            fl.env.probe(f"order_{want}")
            expect(got == want, "mismatch:order", f"node {name} column {c} {fl.cols[c]!r}: order {got!r}, the batches {parts!r} say {want!r}")


def check_node_exact(fl, name, rep=None):
    node = fl.nodes.get(name)
    if node is None:
        return
    rep = rep or fl.report(name)
    gs = rep["global_stats"]
    n = len(node.rows)
    expect(gs["row_count"] == n, "mismatch:row_count", f"node {name}: row_count {gs['row_count']}, rows say {n}")
    expect(gs["column_count"] == len(fl.cols), "mismatch:column_count", f"node {name}: {gs['column_count']}")
    expect(gs["samples_used"] == n, "mismatch:samples_used", f"node {name}: samples_used {gs['samples_used']}, rows say {n}")
    expect(len(rep["data_stats"]) == len(fl.cols), "mismatch:data_stats", f"node {name}: {len(rep['data_stats'])} columns")
    for pos, col in enumerate(rep["data_stats"]):
        c = node.order[pos]
        expect(col["column_name"] == fl.cols[c], "mismatch:column_name", f"node {name}: {col['column_name']!r} at {pos}, expected {fl.cols[c]!r}")
        m = fl.column_model(node.rows, c)
        check_column_exact(col, m, f"node {name} ({n} rows) column {c} {fl.cols[c]!r}", node.merged, vocab=fl.vocab, off=fl.off)
    check_order(fl, name, rep)
