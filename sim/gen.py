"""Workload generation: tables of string cells, batches, index labels."""

NULLS = ["", "nan", "NaN", "None", "none", "null", "NULL", " ", "   ", "-", "---", "_", "__"]
NEARNULL = ["nan0", "nonee", "nul", "- -", "_a", "a ", " b"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]

KINDS = ["int", "float", "cat", "text", "date", "mix", "zero", "nulls", "phase", "const", "intfloat", "offset", "negative", "longtext", "bigint", "sci", "small", "lead", "tiny"]


def cell(r, kind, st):
    if kind == "int":
        lo, hi = st.setdefault("range", r.choice([(-5, 20), (0, 3), (-1000, 1000), (1, 9), (-3, 0)]))
        return str(r.randint(lo, hi))
    if kind == "bigint":
        return str(r.randint(10**8, 10**9)) if r.random() < 0.8 else str(-r.randint(10**8, 10**9))
    if kind == "float":
        d = st.setdefault("dec", r.choice([1, 2, 3, 5]))
        s = st.setdefault("scale", r.choice([1, 5, 1000]))
        v = r.uniform(-s, s)
        t = "%.*f" % (d, v)
        if r.random() < 0.08:
            t = "+" + t.lstrip("-")
        return t
    if kind == "cat":
        pool = st.setdefault("pool", r.sample(["x", "X", "yy", "zz", "Q", "q", "cat one", "É", "x ", "true", "0x1f"], r.randint(2, 5)))
        return r.choice(pool)
    if kind == "text":
        return "".join(r.choice("abcdefgXYZ ") for _ in range(r.randint(1, 12))).strip() or "w"
    if kind == "longtext":
        n = r.choice([3, 40, 254, 255, 256, 300])
        return ("lorem ipsum " * 30)[:n].strip() + "z"
    if kind == "date":
        y, m, d = r.randint(1990, 2030), r.randint(1, 12), r.randint(1, 28)
        f = st.setdefault("fmt", r.choice([0, 0, 1, 2, 3, 4, 5]))
        if f == 4:
            f = r.choice([0, 1, 3])
        if f == 5:  # moments of one day
            f, (y, m, d) = 3, st.setdefault("day", (y, m, d))
        if f == 0:
            return "%04d-%02d-%02d" % (y, m, d)
        if f == 1:
            return "%02d/%02d/%04d" % (m, d, y)
        if f == 2:
            return "%s %02d, %04d" % (r.choice(MONTHS), d, y)
        return "%04d-%02d-%02d %02d:%02d:%02d" % (y, m, d, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    if kind == "mix":
        return r.choice(["1", "2.5", "abc", "0", "-7", "word", "1e", "--x"])
    if kind == "zero":
        return r.choice(st.setdefault("pool", r.choice([["0"], ["0", "1"], ["0", "-1"], ["0.0", "2.5"], ["0", "0.0", "-2.5"]])))
    if kind == "nulls":
        return r.choice(NULLS)
    if kind == "const":
        return st.setdefault("v", r.choice(["7", "1.25", "same", "0", "-3", "2001-02-03"]))
    if kind == "intfloat":
        return str(r.randint(-9, 9)) if r.random() < 0.7 else "%.2f" % r.uniform(-9, 9)
    if kind == "offset":
        return "%.2f" % (100000 + r.uniform(-3, 3))
    if kind == "negative":
        return r.choice(["-1", "-2", "-10", "-0.5"]) if st.setdefault("f", r.random() < 0.5) else str(-r.randint(1, 30))
    if kind == "sci":
        return r.choice(["%de%d", "%.1fE%d", "%.2fe%+03d"]) % (r.randint(-9, 9), r.randint(-4, 4))
    if kind == "small":
        return "%.*f" % (st.setdefault("dec", r.choice([4, 6])), r.uniform(-1, 1) * st.setdefault("scale", r.choice([0.05, 0.001])))
    if kind == "lead":
        return r.choice(["007", "00.50", "+5", "-012", "10.", ".5", " 12", "3 ", "0010", "1.50"])
    if kind == "tiny":
        return "%.3fe-1%d" % (r.uniform(-9, 9), r.randint(0, 1))
    raise ValueError(kind)


def column(r, kind, n):
    st = {}
    if kind == "phase":
        a, b = r.sample(["int", "float", "cat", "date", "nulls", "zero", "text"], 2)
        k = r.randint(0, n)
        v = column(r, a, k)[:] + column(r, b, n - k)[:] if n else []
        return v
    v = [cell(r, kind, st) for _ in range(n)]
    p = r.choice([0, 0, 0.05, 0.2, 0.6])
    mono = r.random()
    if mono < 0.1 and kind in ("int", "bigint"):
        v.sort(key=int, reverse=r.random() < 0.5)
    elif mono < 0.1 and kind in ("float", "negative", "offset", "small"):
        v.sort(key=float, reverse=r.random() < 0.5)
    elif mono < 0.1 and kind in ("text", "cat"):
        v.sort(reverse=r.random() < 0.5)
    nul = r.sample(NULLS, r.randint(1, 4))
    out = [(r.choice(nul) if r.random() < p else x) for x in v]
    return out


def table(r, ncols, nrows, kinds=None):
    ks = [r.choice(kinds or KINDS) for _ in range(ncols)]
    cols = [column(r, k, nrows) for k in ks]
    rows = [list(t) for t in zip(*cols)] if nrows else []
    # duplicated rows make the row-level statistics interesting
    if rows and r.random() < 0.5:
        for _ in range(r.randint(1, max(1, nrows // 3))):
            rows[r.randrange(nrows)] = list(r.choice(rows))
    return ks, rows


def sorted_column(r, n):
    """Distinct values in one direction, so that any runs of rows have ranges that do not overlap."""
    x, v = r.randint(-30, 30), []
    for _ in range(n):
        x += r.randint(1, 4)
        v.append(x)
    f = r.choice([str, str, lambda i: "%.2f" % (i / 4), lambda i: "w%03d" % (i + 100)])
    v = [f(i) for i in v]
    return v[::-1] if r.random() < 0.5 else v


def piecewise(r, n):
    """Row ids 0..n-1 cut into runs whose order is shuffled: sorted batches that arrive out of turn."""
    bs = batches(r, list(range(n)), 6)
    r.shuffle(bs)
    return bs


def names(r, ncols, dup=False):
    base = ["a", "b", "col c", "D", "e1", "f", "g", "h"][:ncols]
    if dup and ncols > 1:
        base[-1] = base[0]
    x = r.random()
    if x < 0.1:
        base = list(range(ncols))  # what pandas makes up
    elif x < 0.18:
        base = [str(2019 + i) for i in range(ncols)]  # years as text
    elif x < 0.22:
        base = [i if i % 2 else n for i, n in enumerate(base)]
    return base


def null_options(r, ncols):
    """Configured null patterns: ([[pattern, ignore case]], [[column, [...]]])."""
    nulls = colnulls = None
    if r.random() < 0.7:
        nulls = [["", 0], ["nan", 1], ["none", 1]]
        nulls += r.sample([["  *", 0], ["null", 1], ["null", 0], ["--*", 0], ["x", 0], ["zz", 1], ["Q", 0], ["0", 0], ["-7", 0]], r.randint(1, 5))
        nulls = [[k, dict(nulls)[k]] for k in dict(nulls)]
    if nulls is None or r.random() < 0.5:
        colnulls = [[c, r.sample([["x", 0], ["yy", 1], ["0", 0], ["7", 0], ["-1", 0], ["1", 0], ["X", 0]], r.randint(1, 2))] for c in r.sample(range(ncols), r.randint(1, ncols))]
    return nulls, colnulls


def stat_toggles(r):
    """A valid choice of numeric statistics to switch off, as options."""
    off = set()
    chain = ["kurtosis", "skewness", "variance", "sum"]  # each needs those after it
    off.update(chain[: r.choice([0, 0, 1, 2, 3, 4])])
    if r.random() < 0.3:
        off.update(["histogram_and_quantiles", "mode", "median", "median_abs_deviation"])
    off.update(x for x in ("mode", "median", "median_abs_deviation", "min", "max", "num_zeros", "num_negatives", "precision", "vocab") if r.random() < 0.2)
    for_ = r.choice([["int", "float", "text"], ["int", "float", "text"], ["int"], ["float"], ["text"], ["int", "float"]])
    out = {}
    for t in for_:
        for x in sorted(off):
            if (x == "precision" and t != "float") or (x == "vocab" and t != "text") or (x in ("num_zeros", "num_negatives") and t == "text"):
                continue
            out[f"structured_options.{t}.{x}.is_enabled"] = False
    return out


def batches(r, ids, maxb=5):
    """Split a list of row ids into consecutive batches (sizes 1.. allowed)."""
    n = len(ids)
    if n == 0:
        return []
    k = min(n, r.randint(1, maxb))
    mode = r.random()
    if mode < 0.2:  # a very small first or last batch
        k = min(n, max(2, k))
    cuts = sorted(r.sample(range(1, n), k - 1)) if k > 1 else []
    if mode < 0.1 and n > 2 and k > 1:
        cuts[0] = 1
        cuts = sorted(set(cuts))
    elif mode < 0.2 and n > 2 and k > 1:
        cuts[-1] = n - 1
        cuts = sorted(set(cuts))
    return [ids[a:b] for a, b in zip([0] + cuts, cuts + [n])]


def perm(rng, n, chance=0.2):
    """A column order for one delivery, or None for the table's own order."""
    if n < 2 or rng.random() >= chance:
        return None
    p = list(range(n))
    rng.shuffle(p)
    return p
