"""Canonical views of reports, and comparison of two of them."""
import math

SKIP = {"times", "samples"}


def canon(x):
    """JSON-like canonical value: arrays/tuples -> lists, sets -> sorted lists."""
    import numpy as np

    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return [canon(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v) for v in x), key=repr)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def flat(x, pre="", skip=SKIP):
    """Flatten a canonical value into {path: leaf}; lists of scalars are leaves."""
    out = {}
    if isinstance(x, dict):
        if not x:
            out[pre] = {}
        for k, v in x.items():
            if k in skip:
                continue
            out.update(flat(v, f"{pre}/{k}", skip))
    elif isinstance(x, list) and x and isinstance(x[0], dict):
        for i, v in enumerate(x):
            out.update(flat(v, f"{pre}/{i}", skip))
    else:
        out[pre] = x
    return out


def same(a, b, rel=1e-9, abs_=1e-12):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if a == b:
            return True
        return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rel, abs_) for k in a)
    return a == b


UNORDERED = {"categories", "vocab", "null_types", "format"}


def diff_reports(a, b, rel=1e-9, ignore=(), skip=SKIP):
    """First differing path between two reports, or None."""
    fa, fb = flat(canon(a), skip=skip), flat(canon(b), skip=skip)
    for k in list(fa) + [k for k in fb if k not in fa]:
        leaf = k.rsplit("/", 1)[-1]
        if leaf in ignore or any(p in ignore for p in k.split("/")):
            continue
        if k not in fa or k not in fb:
            return k, fa.get(k, "<absent>"), fb.get(k, "<absent>")
        x, y = fa[k], fb[k]
        if isinstance(x, list) and isinstance(y, list) and (leaf in UNORDERED or "null_types_index" in k):
            x, y = sorted(x, key=repr), sorted(y, key=repr)
        if not same(x, y, rel):
            return k, fa[k], fb[k]
    return None


def strip_idx(path):
    """Drop list indices / category names from a path, for violation kinds."""
    return "/".join("#" if p.isdigit() else p for p in path.split("/"))
