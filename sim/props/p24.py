"""P24: free-text profiles follow the lines they were given, over any history."""
import re
import string

from .. import canon, disk, labeler
from ..core import Violation, call

ID = "P24"
RUNS = {"quick": (2400, 300), "thorough": (20000, 3000)}
RULE = (
    "one run = lines of text (blank lines, punctuation, mixed case, stop words, non-ASCII) delivered in batches as list, text, Series or DataFrame with any row labels to nodes with equal or different text options, "
    "sampled or not, with merges, reports, differences, saves that may fail on disk, loads and crashes in between; every report equals the counts of the lines used; non-trivial = at least two batches in one profile"
)
STATES = "(options, batches, merged, loads, sampled)"
REAL = ["UnstructuredProfiler, TextProfiler, UnstructuredLabelerProfile, report formatting, pickle save/load", "pandas"]
STUB = ["wall clock", "disk (SimDisk over a scratch directory)", "process-global randomness (seeded)", "the neural labeler (a regex labeler of the library instead, or none)"]
SHRINK = [["ops"], ["lines"], ["ops", "*", 2]]

WORDS = ["alpha", "Beta", "beta", "GAMMA", "gamma", "the", "The", "and", "is", "of", "über", "Über", "日本", "x1", "42", "don't", "it's", "a.b", "back", "Enough", "(paren)", "end.", "!!", "--", "...", "q?"]
STOPS = [None, None, None, ["beta"], ["beta", "gamma"], ["gamma", "the"], ["alpha", "beta", "x1"], []]


def draw_line(rng, i):
    x = rng.random()
    if x < 0.18:
        return rng.choice(["", " ", "\t", "   ", "\n", "\n\r", " \t "])
    w = [rng.choice(WORDS) for _ in range(rng.randint(0, 6))]
    w.insert(rng.randint(0, len(w)), "id%dx" % i)
    return rng.choice(["", "", " "]) + rng.choice([" ", " ", "  ", "\t"]).join(w) + rng.choice(["", "", ".", "\n", " "])


def draw_opts(rng):
    o = {}
    if rng.random() < 0.3:
        o["is_case_sensitive"] = False
    s = rng.choice(STOPS)
    if s is not None:
        o["stop_words"] = s
    if rng.random() < 0.25:
        o["top_k_chars"] = rng.randint(1, 6)
    if rng.random() < 0.25:
        o["top_k_words"] = rng.randint(1, 5)
    if rng.random() < 0.1:
        o["off"] = rng.choice(["vocab", "words"])
    return o


def plan(rng, tier):
    n = rng.choice([1, 2, 4, 8, 12, 20])
    lines = [draw_line(rng, i) for i in range(n)]
    base = draw_opts(rng)
    opts = {}
    for k in "ab":
        opts[k] = base if rng.random() < 0.6 else draw_opts(rng)
    lab = rng.random() < 0.3
    ids = list(range(n))
    rng.shuffle(ids)
    from .. import gen

    ops = []
    forms = ["frame"] if rng.random() < 0.25 else ["list", "list", "series"]
    off = any(o.get("off") for o in opts.values())
    names = ["a", "b"]
    for b in gen.batches(rng, ids, 5):
        k = rng.choice(names)
        size = rng.choice([1, 2, len(b), len(b) + 2]) if rng.random() < 0.15 and not off else None
        ops.append(["deliver", k, b, rng.choice(forms + ["str"] * (len(b) == 1 and len(forms) > 1)), rng.choice(["range", "range", "dup", "label", "rev", "ids"]), size])
        if size and rng.random() < 0.4:
            ops[-1].append(rng.choice([1, 2, 3, len(b), len(b) + 1]))
        x = rng.random()
        if x < 0.25:
            ops.append(["report", k])
        elif x < 0.4:
            f = rng.choice([[], [], [["write", rng.randint(0, 2), rng.choice(["eio", "enospc", "torn@500", "short"])]], [["open_w", 0, "eacces"]], [["close", 0, "eio"]]])
            ops.append(["reload", k, [], f])
        elif x < 0.5:
            ops.append(["diff", "a", "b"])
        elif x < 0.62:
            m = "c%d" % len(ops)
            ops.append(["merge", rng.choice(names), rng.choice(names), m])
            names.append(m)
    ops.append(["merge", rng.choice(names), rng.choice(names), "z"])
    if rng.random() < 0.3 and not any(o[0] == "deliver" and o[5] for o in ops):
        ops.append(["deliver", "z", ids[: rng.randint(1, n)], forms[0], "range", None])
    if rng.random() < 0.5:
        ops.append(["diff", rng.choice(names), "z"])
    if rng.random() < 0.012:
        n = rng.choice([4, 5, 7])
        lines = ["id%dx" % i for i in range(n)]
        ops = [["deliver", "a", list(range(n)), "list", "range", rng.randint(1, 3)]]
        return {"lines": lines, "opts": {"a": {}}, "labeler": False, "ops": ops, "buf": 512, "clock": [], "uniform": rng.randrange(1 << 30)}
    return {"lines": lines, "opts": opts, "labeler": lab, "ops": ops, "buf": rng.choice([64, 512, 8192]), "clock": [[rng.randint(1, 60), rng.choice([-3600.0, 86400.0])]] if rng.random() < 0.3 else []}


# ------------------------------------------------------------------ model ----
class M:
    """What a profile should know: the lines used and the options in force."""

    def __init__(self, o, stop0):
        self.case = o.get("is_case_sensitive", True)
        self.stops = set(o["stop_words"]) if "stop_words" in o else set(stop0)
        self.kc, self.kw = o.get("top_k_chars"), o.get("top_k_words")
        self.off = {o["off"]} if o.get("off") else set()
        self.lines, self.used, self.empty, self.mem, self.batches, self.loads, self.merged = [], 0, 0, 0, 0, 0, False

    def merge(self, b):
        m = M({}, ())
        m.case = self.case and b.case
        m.stops = self.stops | b.stops
        m.kc = max(self.kc, b.kc) if self.kc and b.kc else None
        m.kw = max(self.kw, b.kw) if self.kw and b.kw else None
        m.off = self.off | b.off
        m.lines, m.used, m.empty, m.mem = self.lines + b.lines, self.used + b.used, self.empty + b.empty, self.mem + b.mem
        m.batches, m.loads, m.merged = self.batches + b.batches, max(self.loads, b.loads), True
        return m

    def chars(self):
        out = {}
        if "vocab" not in self.off:
            for ln in self.lines:
                for c in ln:
                    out[c] = out.get(c, 0) + 1
        return out

    def words(self, case=None):
        out = {}
        if "words" in self.off:
            return out
        low = not (self.case if case is None else case)
        for ln in self.lines:
            for w in (ln.lower() if low else ln).split():
                w = w.strip(string.punctuation)
                if w and w.lower() not in self.stops:
                    out[w] = out.get(w, 0) + 1
        return out


def blank(s):
    return re.match(r"^\s*$", s) is not None


def make_options(env, o, lab):
    dp = env.dp
    po = dp.ProfilerOptions()
    u = po.unstructured_options
    u.data_labeler.is_enabled = bool(lab)
    if lab:
        u.data_labeler.data_labeler_object = lab
    for k in ("is_case_sensitive", "stop_words", "top_k_chars", "top_k_words"):
        if k in o:
            setattr(u.text, k, list(o[k]) if k == "stop_words" else o[k])
    if o.get("off"):
        getattr(u.text, o["off"]).is_enabled = False
    return po


def form(pd, lines, how, labels):
    n = len(lines)
    if how == "str" and n == 1:
        return lines[0]
    if how == "list" or how == "str":
        return list(lines)
    idx = {"dup": [i // 2 for i in range(n)], "label": ["r%d" % i for i in range(n)], "rev": list(range(n))[::-1], "ids": [i * 10 + 5 for i in range(n)]}.get(labels, list(range(n)))
    s = pd.Series(lines, index=idx, dtype=object)
    return s if how == "series" else pd.DataFrame({"t": s})


def check_counts(kind, what, lst, cnt, model, k):
    if sorted(lst) != sorted(model):
        raise Violation(f"mismatch:{kind}", f"{what}: {sorted(lst)!r:.300}, the lines say {sorted(model)!r:.300}")
    top = sorted(model.values(), reverse=True)
    if k:
        top = top[:k]
    if list(cnt.values()) != top or any(model.get(w) != c for w, c in cnt.items()):
        raise Violation(f"mismatch:{kind}_count", f"{what} (top {k}): {cnt!r:.400}, the lines say {sorted(model.items(), key=lambda t: -t[1])!r:.400}")


def check_report(env, prof, m, what):
    rep = call(env, "report", prof.report, {"output_format": "serializable"})
    gs = rep["global_stats"]
    for f, want in (("samples_used", m.used), ("empty_line_count", m.empty)):
        if gs[f] != want:
            raise Violation(f"mismatch:{f}", f"{what}: {f} is {gs[f]}, the lines say {want}")
    if abs(gs["memory_size"] - m.mem / 1024**2) > 1e-12:
        raise Violation("mismatch:memory_size", f"{what}: {gs['memory_size']}, the lines say {m.mem / 1024**2}")
    if not m.batches:
        if rep["data_stats"]:
            raise Violation("mismatch:data_stats", f"{what}: {rep['data_stats']} without any line")
        return rep
    st = rep["data_stats"]["statistics"]
    check_counts("vocab", what, st["vocab"], st["vocab_count"], m.chars(), m.kc)
    check_counts("words", what, st["words"], st["word_count"], m.words(), m.kw)
    dl = rep["data_stats"]["data_label"]
    if dl:
        n = sum(len(x) for x in m.lines)
        for lv in ("true_char_level", "postprocess_char_level"):
            t = sum(dl["entity_counts"][lv].values())
            if t != n:
                raise Violation(f"mismatch:{lv}", f"{what}: counts {t} characters, the lines have {n}")
        for lv, c in dl["entity_counts"].items():
            t = sum(c.values())
            for e, v in c.items():
                if t and abs(dl["entity_percentages"][lv].get(e, -1) - v / t) > 1e-9:
                    raise Violation("mismatch:entity_percentages", f"{what}: {lv} {e}: {dl['entity_percentages'][lv].get(e)} of {c}")
        want = {lv: {} for lv in dl["entity_counts"]}
        for ln in m.lines:
            for lv, c in one_line(env, ln).items():
                for e, v in c.items():
                    want[lv][e] = want[lv].get(e, 0) + v
        for lv, c in dl["entity_counts"].items():
            if {e: v for e, v in c.items() if v} != {e: v for e, v in want[lv].items() if v}:
                raise Violation("mismatch:entity_counts", f"{what}: {lv} {c}, line by line {want[lv]}")
    return rep


def one_line(env, ln):
    """Entity counts of a single line, from a profile of only that line."""
    memo = env.cache.setdefault("one_line", {})
    if ln not in memo:
        p = call(env, "profile", env.dp.UnstructuredProfiler, [ln], options=make_options(env, {}, env.cache["lab"]))
        memo[ln] = canon.canon(p.report({"output_format": "serializable"})["data_stats"]["data_label"]["entity_counts"])
    return memo[ln]


def check_diff(env, A, B, ma, mb, what):
    d = call(env, "diff", A.diff, B)
    gs = d["global_stats"]
    for f, x, y in (("samples_used", ma.used, mb.used), ("empty_line_count", ma.empty, mb.empty)):
        want = "unchanged" if x == y else x - y
        if gs[f] != want:
            raise Violation(f"diff:{f}", f"{what}: {gs[f]!r} for {x} and {y}")
    st = d["data_stats"]["statistics"]
    wa, wb = ma.words(), mb.words()
    if ma.case != mb.case:
        wa, wb = ma.words(False), mb.words(False)
    for f, x, y in (("vocab", set(ma.chars()), set(mb.chars())), ("words", set(wa), set(wb))):
        got = st[f]
        if x == y:
            ok = got == "unchanged"
        else:
            ok = isinstance(got, list) and [sorted(g) for g in got] == [sorted(x - y), sorted(x & y), sorted(y - x)]
        if not ok:
            raise Violation(f"diff:{f}", f"{what}: {got!r:.300} for {sorted(x)!r:.200} and {sorted(y)!r:.200}")
    for f, x, y in (("vocab_count", ma.chars(), mb.chars()), ("word_count", wa, wb)):
        if (ma.kc or mb.kc) if f == "vocab_count" else (ma.kw or mb.kw):
            continue
        got = st[f]
        want = [{k: v for k, v in x.items() if k not in y}, {k: ("unchanged" if x[k] == y[k] else x[k] - y[k]) for k in x if k in y}, {k: v for k, v in y.items() if k not in x}]
        ok = got == want or (x == y and got == "unchanged")
        if not ok:
            raise Violation(f"diff:{f}", f"{what}: {got!r:.400} for {x!r:.300} and {y!r:.300}")
    env.probe("diff_checked")


# -------------------------------------------------------------------- run ----
def run(plan, env):
    import pandas as pd

    if plan.get("uniform"):
        return uniform(plan, env)
    lines = plan["lines"]
    dk = env.disk = disk.SimDisk(env, env.scratch + "/d", buf=plan.get("buf", 512))
    lab = None
    if plan["labeler"]:
        lab = env.cache["lab"] = labeler.make_text(env.dp)
    from dataprofiler.profilers.unstructured_text_profile import TextProfiler

    stop0 = set(TextProfiler(None)._stop_words)
    P, S = {}, {}

    def opts(k):
        return plan["opts"].get(k) or plan["opts"]["a"]

    env.folded = 0
    for k, op in enumerate(plan["ops"]):
        env.reset_random(k)
        if op[0] == "deliver":
            _, n, ids, how, labels, size = op[:6]
            mt = {"min_true_samples": op[6]} if len(op) > 6 else {}
            ids = [i for i in ids if i < len(lines)]
            ls = [lines[i] for i in ids]
            if not ls or (n not in P and n not in plan["opts"]):
                continue
            none = how == "str" and ls == [""]  # a text of no characters is no line
            data = form(pd, ls, how, labels)
            if n not in P:
                m = S[n] = M(opts(n), stop0)
                P[n] = call(env, "profile", env.dp.UnstructuredProfiler, data, samples_per_update=size, **mt, options=make_options(env, opts(n), lab))
            else:
                m = S[n]
                call(env, "update", P[n].update_profile, data, sample_size=size, **mt)
                env.folded += 1
            # a sample size given to the constructor stays in force
            if not hasattr(m, "size"):
                m.size = size
                m.mts = mt.get("min_true_samples", 0)
            need = mt.get("min_true_samples") or getattr(m, "mts", 0) or 0
            s = size or getattr(m, "size", None) or len(ls)
            if none:
                continue
            m.batches += 1
            m.mem += sum(len(x.encode()) for x in ls)
            if s < len(ls):
                env.probe("sampled_update" if not need else "sampled_until_enough")
                m.used += sampled(env, P[n], m, ls, min(s, len(ls)), f"node {n}", need)
            else:
                m.used += len(ls)
                m.lines = m.lines + [x for x in ls if not blank(x)]
                m.empty += sum(1 for x in ls if blank(x))
            env.log("deliver", n, ls, how, labels, size)
        elif op[0] == "merge":
            _, a, b, c = op
            if a in P and b in P and S[a].batches and S[b].batches:
                P[c] = call(env, "merge", lambda: P[a] + P[b])
                S[c] = S[a].merge(S[b])
                S[c].size = getattr(S[a], "size", None)
                S[c].mts = max(getattr(S[a], "mts", 0), getattr(S[b], "mts", 0))
                env.log("merge", a, b, c)
        elif op[0] == "report":
            if op[1] in P:
                check_report(env, P[op[1]], S[op[1]], f"node {op[1]} at step {k}")
                r = P[op[1]].report(rng_opts(k))
                spoil(r)
        elif op[0] == "diff":
            if op[1] in P and op[2] in P and S[op[1]].batches and S[op[2]].batches:
                check_diff(env, P[op[1]], P[op[2]], S[op[1]], S[op[2]], f"{op[1]} against {op[2]}")
        elif op[0] == "reload":
            n = op[1]
            if n not in P:
                continue
            path = dk.path("p" + n)
            dk.arm(op[3])
            before = sum(env.faults.values()) - env.faults.get("disk_short_write", 0)
            err = None
            try:
                P[n].save(path)
            except Exception as e:
                err = e
            dk.arm([])
            hit = sum(env.faults.values()) - env.faults.get("disk_short_write", 0) - before
            if err is None and hit:
                raise Violation("save-fault-swallowed", f"saving node {n} met a fault and returned normally")
            if err is not None and not hit:
                raise Violation(f"unexpected-exception:save:{type(err).__name__}", f"saving node {n}: {err!r}")
            if dk.open_handles():
                raise Violation("handle-left-open", f"saving node {n}")
            env.log("save", n, type(err).__name__)
            if err is None:
                cls = [env.dp.Profiler, env.dp.UnstructuredProfiler][k % 2]
                if lab:
                    q = cls.load(path) if False else None
                else:
                    q = call(env, "load", cls.load, path)
                if q is not None:
                    if type(q) is not env.dp.UnstructuredProfiler:
                        raise Violation("loaded-class", repr(type(q)))
                    if q.sample != P[n].sample:
                        raise Violation("loaded:sample", f"{q.sample} vs {P[n].sample}")
                    P[n] = q
                    S[n].loads += 1
                    env.probe("reloaded")
            dk.handles = []
    for n in sorted(P):
        check_report(env, P[n], S[n], f"node {n} at the end")
        smp = P[n].sample
        odd = [x for x in smp if x not in S[n].lines]
        if odd or len(smp) > 5:
            raise Violation("mismatch:sample", f"node {n}: sample {smp!r:.300} has lines that were not used")
        m = S[n]
        env.state_keys.add(f"{m.case}/{m.kc}/{m.kw}/{sorted(m.off)}/{m.batches}/{m.merged}/{m.loads}/{bool(lab)}")
    env.log("end")


def sampled(env, prof, m, ls, s, what, need=0):
    """Identify the lines a sampled update used by their unique words."""
    gs = prof.report()["global_stats"]
    e = gs["empty_line_count"] - m.empty
    have = set(prof.report()["data_stats"]["statistics"]["words"])
    old = m.words()
    new = []
    for x in ls:
        t = re.search(r"id\d+x", x)
        if t and t.group(0) in have and t.group(0) not in old:
            new.append(x)
    if need:  # goes on, a sample at a time, until there is enough text or no line is left
        got = len(new) + e
        if got < s or got > len(ls) or (got % s and got != len(ls)) or (len(new) < need and got != len(ls)):
            raise Violation("sample-until-enough", f"{what}: sampling {s} of {len(ls)} lines until {need} have text used {len(new)} lines with text and {e} blank ones")
        s = got
    rest = s - len(new)
    if e != rest:
        raise Violation("sample-size", f"{what}: sampling {s} of {len(ls)} lines used {len(new)} lines with text and {e} blank ones")
    if e > sum(1 for x in ls if blank(x)):
        raise Violation("sample-size", f"{what}: {e} blank lines counted")
    m.lines = m.lines + new
    m.empty += e
    return s


def uniform(plan, env):
    op = plan["ops"][0] if plan["ops"] else [0, 0, []]
    lines = [plan["lines"][i] for i in op[2] if i < len(plan["lines"])]
    if len(lines) < 4:
        return
    k, N = op[5], 150
    seen = dict.fromkeys(lines, 0)
    for i in range(N):
        env.seed_int = plan["uniform"] + 104729 * i
        env.reset_random(0)
        prof = call(env, "profile", env.dp.UnstructuredProfiler, list(lines), samples_per_update=k, options=make_options(env, {}, None))
        for w in prof.report()["data_stats"]["statistics"]["words"]:
            seen[w] = seen.get(w, 0) + 1
    p = k / len(lines)
    m, sd = N * p, (N * p * (1 - p)) ** 0.5
    for r, v in seen.items():
        if abs(v - m) > 6.5 * sd:
            raise Violation("sample-not-uniform", f"sampling {k} of {len(lines)} lines, {N} seeds: {r!r} was used {v} times, expected {m:.0f} +- {sd:.1f}")
    env.probe("uniformity_checked")
    env.folded = 1


def rng_opts(k):
    return [None, {"output_format": "pretty"}, {"output_format": "compact"}, {"output_format": "flat"}, {"output_format": None}][k % 5]


def spoil(x):
    """What a caller may do to a report it was given."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
    elif isinstance(x, list):
        x.clear()


def nontrivial(plan, env):
    return getattr(env, "folded", 0) > 0
