"""Independent, deliberately naive statistics of a column of string cells.

Only quantities that are exactly determined by the multiset (or sequence) of
cells are produced; anything the library approximates by design (quantiles,
histogram bins, mode, MAD) or decides heuristically (order, datetime share of a
mixed column) is left to other checks.
"""
import datetime
import math
import re
from collections import Counter

NULL_RE = re.compile(r"^(?:|nan|none|null|  *|--*|__*)$", re.I)
DATE_FMTS = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%m/%d/%Y", "%b %d, %Y"]


def is_null(s):
    return bool(NULL_RE.match(s))


def null_test(pairs):
    """Predicate for a configured set of null patterns [[pattern, ignore case?], ...]."""
    rs = [re.compile(f"^(?:{p})$", re.I if ic else 0) for p, ic in pairs]
    return lambda s: any(r.match(s) for r in rs)


def as_float(s):
    try:
        v = float(s)
    except ValueError:
        return None
    return v


def as_date(s):
    for f in DATE_FMTS:
        try:
            return datetime.datetime.strptime(s, f)
        except ValueError:
            pass
    return None


def sig_digits(s):
    """Significant digits as documented (leading/trailing zeros not counted)."""
    s = s.strip().lstrip("+-")
    if "e" in s.lower():  # those of the mantissa, as it is written
        return len(s.lower().split("e")[0].lstrip("0.").replace(".", ""))
    if "." in s:
        i, f = s.split(".", 1)
        f = f.rstrip("0")
    else:
        i, f = s.rstrip("0"), ""
    return len((i + f).lstrip("0"))


def moments(xs, bias_correction=True):
    """Two-pass moments with the usual unbiased corrections."""
    n = len(xs)
    out = {"n": n}
    if not n:
        return out
    tot = math.fsum(xs)
    mean = tot / n
    d = [x - mean for x in xs]
    s2 = math.fsum(x * x for x in d)
    s3 = math.fsum(x**3 for x in d)
    s4 = math.fsum(x**4 for x in d)
    out.update(sum=tot, mean=mean, min=min(xs), max=max(xs), s2=s2)
    nan = float("nan")
    scale = max(abs(x) for x in xs) or 1.0
    degenerate = s2 / n < 1e-12 * scale * scale
    out["degenerate"] = degenerate
    if bias_correction:
        out["variance"] = s2 / (n - 1) if n > 1 else nan
    else:
        out["variance"] = s2 / n
    out["stddev"] = math.sqrt(out["variance"]) if out["variance"] == out["variance"] else nan
    if not degenerate:
        m2, m3, m4 = s2 / n, s3 / n, s4 / n
        g1 = m3 / m2**1.5
        g2 = m4 / m2**2 - 3
        if bias_correction:
            out["skewness"] = g1 * math.sqrt(n * (n - 1)) / (n - 2) if n > 2 else nan
            out["kurtosis"] = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * g2 + 6) if n > 3 else nan
        else:
            out["skewness"], out["kurtosis"] = g1, g2
    return out


class ColumnModel:
    """cells: list of str (after str()), in the order they were delivered."""

    def __init__(self, cells, types=("datetime", "int", "float", "text"), bias_correction=True, is_null=is_null):
        self.cells = cells
        self.types = types
        self.bias = bias_correction
        self.values = [c for c in cells if not is_null(c)]
        self.nulls = Counter(c for c in cells if is_null(c))
        self.n = len(self.values)
        fl = [as_float(v) for v in self.values]
        self.floats = [x for x in fl if x is not None]
        self.float_cells = [v for v, x in zip(self.values, fl) if x is not None]
        self.ints = [x for x in self.floats if x == x and not math.isinf(x) and x == int(x)]
        self.dates = [d for d in (as_date(v) for v in self.values) if d is not None]

    def ratio(self, t):
        if not self.n:
            return None
        return {"int": len(self.ints), "float": len(self.floats), "datetime": len(self.dates), "text": self.n}[t] / self.n

    def datetime_decided(self):
        return not self.dates or len(self.dates) == self.n

    def data_type(self):
        if not self.n:
            return None
        for t in ("datetime", "int", "float", "text"):
            if t in self.types and self.ratio(t) == 1.0:
                if t == "text":
                    return "string" if max(len(v) for v in self.values) <= 255 else "text"
                return t
        return None

    def numbers(self):
        t = self.data_type()
        if t == "int":
            return self.ints
        if t == "float":
            return self.floats
        if t in ("string", "text"):
            return [float(len(v)) for v in self.values]
        return None
