"""P26: a graph profile describes the last graph it was given, and survives saving."""
import os

from .. import canon, disk
from ..core import SimCrash, Violation, call

ID = "P26"
RUNS = {"quick": (400, 300), "thorough": (8000, 3000)}
RULE = (
    "one run = a graph profiler given a sequence of graphs (self loops, isolated nodes, several components, attributes missing on some edges), with saves, loads, crashes and disk faults between; "
    "node and edge counts, average degree, largest component, attribute kinds, histograms and best fits are compared with a direct computation; a hard write fault makes the save raise; a completed save loads as the same profile, "
    "an incomplete one is refused or is the same; the graphs are left as they were; non-trivial = at least two operations"
)
STATES = "(graphs, saves, faults, outcome)"
REAL = ["GraphProfiler.update, report, diff, save, load, GraphData"]
STUB = ["disk (SimDisk over a scratch directory)", "wall clock"]
SHRINK = [["ops"], ["graphs", "*", "edges"], ["graphs", "*", "attrs"]]
DISTS = ["norm", "uniform", "expon", "logistic", "lognorm", "gamma"]


def graph(rng):
    n = rng.choice([1, 2, 3, 5, 9])
    names = rng.choice([list(range(n)), ["n%d" % i for i in range(n)]])
    attrs = []
    for i in range(rng.choice([0, 1, 1, 2])):
        attrs.append(["a%d" % i if rng.random() < 0.8 else i, rng.choice(["int", "int", "mix", "float", "float"]), rng.choice([0, 0, 0.4]), rng.choice([1, 1, 1000])])
    m = rng.choice([0, 1, 3, 8, 15] + ([] if rng.random() < 0.9 else [220]))
    if m == 220:
        names = list(range(30))
    edges = []
    pairs = [(rng.choice(names), rng.choice(names)) for _ in range(m)]
    if m and rng.random() < 0.25:  # a small dense component beside a large sparse one
        names = list(range(11))
        pairs = [(a, b) for a in range(4) for b in range(a + 1) if rng.random() < 0.9] + [(a, a + 1) for a in range(4, 10) if rng.random() < 0.9]
    for u, v in pairs:
        at = {}
        for a, k, miss, scale in attrs:
            if rng.random() < miss:
                continue
            x = rng.randint(-3, 9) if k == "int" or (k == "mix" and rng.random() < 0.4) else (rng.randint(0, 9999) + 0.5) / 1009
            at[a] = x * scale if k == "int" else x * scale + (0.001 if scale > 1 and k == "float" else 0)
        edges.append([u, v, sorted(at.items(), key=str)])
    return {"nodes": names, "edges": edges}


def plan(rng, tier):
    p = {"graphs": [graph(rng) for _ in range(rng.randint(1, 3))], "buf": rng.choice([16, 64, 512])}
    ops = [["update", 0, rng.random() < 0.3]]
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["update", "save", "save", "load", "diff", "bad", "report"])
        if k == "update":
            ops.append([k, rng.randrange(len(p["graphs"])), rng.random() < 0.3])
        elif k == "save":
            x = rng.choice(["none", "open_w", "write", "write", "close"])
            kind = {"open_w": ["eacces", "enospc", "crash"], "close": ["eio", "enospc", "crash"]}.get(x, ["eio", "enospc", "short", "torn@500", "torn@0", "torn@999", "crash", "crash_torn@900"])
            ops.append([k, rng.randint(0, 1), [] if x == "none" else [[x, rng.choice([0, 0, 1, 3]) if x == "write" else 0, rng.choice(kind)]], rng.choice([None, 0, 500, 900])])
        elif k == "load":
            x = rng.choice(["none", "open_r", "read"])
            ops.append([k, rng.randint(0, 1), [] if x == "none" else [[x, rng.choice([0, 0, 1]), rng.choice(["eio", "short"] if x == "read" else ["eio", "eacces"])]]])
        else:
            ops.append([k])
    for _ in range(rng.choice([0, 1, 1])):  # a save and a load of the same slot
        i = rng.randint(1, len(ops))
        ops[i:i] = [["save", 1, [], None], ["load", 1, []]]
    p["ops"] = ops
    return p


def make(g):
    import networkx as nx

    G = nx.Graph()
    G.add_nodes_from(g["nodes"])
    for u, v, at in g["edges"]:
        G.add_edge(u, v, **{}) if not at else G.add_edges_from([(u, v, dict(at))])
    return G


def snap(G):
    return sorted(map(repr, G.nodes(data=True))), sorted(map(repr, G.edges(data=True)))


def expect(G):
    """What the profile of this graph must say (None: nothing was ever profiled)."""
    edges = list(G.edges(data=True))
    comp, seen = [], set()
    for s in G.nodes:
        if s in seen:
            continue
        todo, c = [s], set()
        while todo:
            x = todo.pop()
            if x in c:
                continue
            c.add(x)
            todo += list(G.adj[x])
        seen |= c
        comp.append(c)
    big = max(len(c) for c in comp)
    deg = sum(2 for _ in edges)
    vals = {}
    for _, _, d in edges:
        for a, x in d.items():
            vals.setdefault(a, []).append(x)
    return {
        "num_nodes": len(G.nodes),
        "num_edges": len(edges),
        "avg_node_degree": deg / len(G.nodes),
        "sizes": {sum(1 for u, v, _ in edges if u in c) for c in comp if len(c) == big},
        "vals": vals,
        "cat": {a for a, xs in vals.items() if any(float(x).is_integer() for x in xs)},
    }


def check(rep, want, what):
    if want is None:
        for k in ("num_nodes", "num_edges", "avg_node_degree", "categorical_attributes"):
            if rep[k] is not None:
                raise Violation(f"graph:{k}", f"{what}: nothing was profiled, {k} is {rep[k]!r}")
        return
    for k in ("num_nodes", "num_edges"):
        if rep[k] != want[k]:
            raise Violation(f"graph:{k}", f"{what}: {k} {rep[k]!r}, must be {want[k]!r}")
    if abs(rep["avg_node_degree"] - want["avg_node_degree"]) > 1e-9:
        raise Violation("graph:avg_node_degree", f"{what}: {rep['avg_node_degree']!r}, must be {want['avg_node_degree']!r}")
    if rep["global_max_component_size"] not in want["sizes"]:
        raise Violation("graph:global_max_component_size", f"{what}: {rep['global_max_component_size']!r}, must be one of {want['sizes']}")
    vals, cat = want["vals"], want["cat"]
    if sorted(map(str, rep["categorical_attributes"])) != sorted(map(str, cat)) or sorted(map(str, rep["continuous_attributes"])) != sorted(map(str, set(vals) - cat)):
        raise Violation("graph:attributes", f"{what}: categorical {rep['categorical_attributes']}, continuous {rep['continuous_attributes']}, values say categorical {sorted(map(str, cat))} of {sorted(map(str, vals))}")
    for k in ("categorical_distribution", "continuous_distribution"):
        if set(map(str, rep[k])) != set(map(str, vals)):
            raise Violation(f"graph:{k}", f"{what}: {k} has {list(rep[k])}, attributes are {list(vals)}")
    for a, xs in vals.items():
        h, f = rep["categorical_distribution"][a], rep["continuous_distribution"][a]
        if (a in cat) != (h is not None) or (a in cat) != (f is None):
            raise Violation("graph:distribution-kind", f"{what}: attribute {a}: {h!r:.100} / {f!r:.100}")
        if h is not None:
            c, e = list(h["bin_counts"]), list(h["bin_edges"])
            ok = len(e) == len(c) + 1 and sum(c) == len(xs) and all(e[i] < e[i + 1] for i in range(len(c)))
            for i in range(len(c)):
                n = sum(1 for x in xs if (e[i] <= x < e[i + 1]) or (i == len(c) - 1 and x == e[-1]))
                ok = ok and n == c[i]
            if not ok:
                raise Violation("graph:histogram", f"{what}: attribute {a}: counts {c} edges {e} for {sorted(xs)[:40]}")
        else:
            nl = {k: v for k, v in fits(xs).items() if v == v}
            if f["name"] not in DISTS:
                raise Violation("graph:fit", f"{what}: attribute {a}: {f['name']!r}")
            best = min(nl.values())
            got, ref = list(f["properties"]["best_fit_properties"]), PARAMS.get((f["name"], tuple(xs)), [])
            if f["name"] in nl and (len(got) != len(ref) or any(not (abs(p - q) <= 1e-6 * max(1, abs(q)) or p == q or (p != p and q != q)) for p, q in zip(got, ref))):
                raise Violation("graph:fit-properties", f"{what}: attribute {a}: {f['name']} with {got}, fitted {ref}")
            if best in (float("inf"), float("-inf")):
                if f["scale"] != best or nl.get(f["name"]) != best:
                    raise Violation("graph:fit", f"{what}: attribute {a}: best fit {f['name']} ({f['scale']}), but {nl}")
            elif nl[f["name"]] > best + 1e-6 * max(1, abs(best)) or abs(f["scale"] - best) > 1e-6 * max(1, abs(best)):
                raise Violation("graph:fit", f"{what}: attribute {a}: best fit {f['name']} ({f['scale']}), but {nl}")


_FITS = {}
PARAMS = {}


def fits(xs):
    key = tuple(xs)
    if key not in _FITS:
        import scipy.stats as st

        out = {}
        for n in DISTS:
            d = getattr(st, n)
            try:
                p = d.fit(list(xs), superfit=True) if n == "lognorm" else d.fit(list(xs))
            except st.FitError:
                continue
            out[n] = float(d.nnlf(p, list(xs)))
            PARAMS[n, key] = [float(v) for v in p]
        if len(_FITS) > 200:
            _FITS.clear()
            for k in [k for k in PARAMS if k[1] != key]:
                del PARAMS[k]
        _FITS[key] = out
    return _FITS[key]


def plain(rep):
    return repr(canon.canon({k: v for k, v in rep.items() if k != "times"}))


def run(plan, env):
    from dataprofiler.data_readers.graph_data import GraphData
    from dataprofiler.profilers.graph_profiler import GraphProfiler

    if not plan["graphs"]:
        return
    d = env.disk = disk.SimDisk(env, env.scratch + "/d", buf=plan["buf"])
    gs = [make(g) for g in plan["graphs"]]
    prof = call(env, "new", GraphProfiler, gs[0])
    want, slots, env.n, gens = None, {}, 0, 0
    for op in plan["ops"]:
        env.log(*[str(x) for x in op])
        env.n += 1
        if op[0] == "update":
            G = gs[op[1] % len(gs)]
            before = snap(G)
            call(env, "update", prof.update, GraphData(data=G) if op[2] else G)
            if snap(G) != before:
                raise Violation("graph-changed", "the profiled graph was changed")
            if len(G.nodes):
                want = expect(G)
        elif op[0] == "bad":
            before = plain(prof.report())
            try:
                prof.update([[1, 2]])
                raise Violation("graph-accepted", "a list was accepted as a graph")
            except NotImplementedError:
                pass
            if plain(prof.report()) != before:
                raise Violation("graph-refused-changed", "a refused update changed the profile")
        elif op[0] == "diff":
            other = call(env, "new", GraphProfiler, gs[-1])
            call(env, "update", other.update, gs[-1])
            if want is not None:
                df = call(env, "diff", prof.diff, other)
                w2 = expect(gs[-1])
                for k in ("num_nodes", "num_edges"):
                    x = want[k] - w2[k]
                    if df[k] != (x if x else "unchanged"):
                        raise Violation(f"graph-diff:{k}", f"{df[k]!r}, must be {x}")
                x = want["avg_node_degree"] - w2["avg_node_degree"]
                if df["avg_node_degree"] == "unchanged" and abs(x) > 1e-9 or df["avg_node_degree"] != "unchanged" and abs(df["avg_node_degree"] - x) > 1e-9:
                    raise Violation("graph-diff:avg_node_degree", f"{df['avg_node_degree']!r}, must be {x}")
                for k, a, b in (("categorical_attributes", want["cat"], w2["cat"]), ("continuous_attributes", set(want["vals"]) - want["cat"], set(w2["vals"]) - w2["cat"])):
                    if (df[k] == "unchanged") != (a == b) or a != b and [set(map(str, x)) for x in df[k]] != [set(map(str, x)) for x in (a - b, a & b, b - a)]:
                        raise Violation(f"graph-diff:{k}", f"{df[k]!r}, must be that of {a} and {b}")
        elif op[0] == "save":
            _, slot, faults, keep = op
            gens += 1
            path = d.path(f"g{slot}_{gens}")
            d.arm(faults)
            before = dict(env.faults)
            raised = crashed = None
            try:
                prof.save(path)
            except SimCrash:
                crashed = True
            except Exception as e:
                raised = e
            d.arm([])
            new = {k for k, v in env.faults.items() if v != before.get(k, 0)}
            hard = {k for k in new if k.startswith("disk")} - {"disk_short_write"}
            if raised is not None and not hard:
                raise Violation(f"unexpected-exception:save:{type(raised).__name__}", f"{raised!r}")
            if raised is None and not crashed and hard:
                raise Violation("save-fault-swallowed", f"saving met {sorted(hard)} and returned normally")
            if raised is not None and d.open_handles():
                raise Violation("handle-left-open", "a file is open after a failed save")
            d.handles = [] if not crashed else d.handles
            slots[slot] = [path, plain(prof.report()), want, not (raised or crashed)]
            if crashed:
                d.restart(keep)
                prof, want = call(env, "new", GraphProfiler, gs[0]), None
                env.probe("crash_in_save")
            else:
                d.synced()
            env.state_keys.add(f"save/{sorted(new)}/{type(raised).__name__}")
        elif op[0] == "load" and op[1] in slots:
            path, rep, w, complete = slots[op[1]]
            d.arm(op[2])
            before = dict(env.faults)
            got = raised = None
            try:
                got = GraphProfiler.load(path)
            except Exception as e:
                raised = e
            d.arm([])
            new = {k for k, v in env.faults.items() if v != before.get(k, 0)}
            env.state_keys.add(f"load/{complete}/{sorted(new)}/{type(raised).__name__}")
            if raised is not None:
                if complete and not new - {"disk_short_read"}:
                    raise Violation(f"unexpected-exception:load:{type(raised).__name__}", f"{raised!r} with {sorted(new)}")
                env.probe("load_refused")
                continue
            if plain(got.report()) != rep:
                raise Violation("graph-loaded-differs", f"saved {str(rep)[:300]}, loaded {str(plain(got.report()))[:300]}")
            prof, want = got, w
            env.probe("loaded")
        rep = call(env, "report", prof.report)
        less = call(env, "report", prof.report, True)
        if plain(less) != plain(rep):
            raise Violation("graph-report", f"without disabled parts: {str(less)[:300]}, all: {str(rep)[:300]}")
        check(rep, want, f"after {op[0]}")


def nontrivial(plan, env):
    return getattr(env, "n", 0) > 1
