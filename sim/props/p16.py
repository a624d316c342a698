"""P16: profilers and readers in different threads do not influence each other."""
import importlib.util
import io
import logging
import os

from .. import canon, files, fleet, gen, labeler, readers, sched
from ..core import Violation, call
from . import p01

ID = "P16"
RUNS = {"quick": (260, 300), "thorough": (8000, 3000)}
RULE = (
    "one run = two or three real threads, each with its own profilers (structured or free text) or readers, sharing options, labeler, input frames and file; the seeded scheduler moves the baton at any line of the library; "
    "every thread obtains exactly the results it obtains alone, errors of one thread (a refused batch) reach only that thread, nobody waits for ever; or several threads use the library's logger for the first time together: "
    "it has one handler, every message appears once, and a verbosity that was set stays; non-trivial = at least two switches while several threads were alive"
)
STATES = "(thread kinds, switches bucket)"
REAL = p01.REAL + ["real threads, library locks (created through the seam), CSV/JSON readers, TextProfiler, logging"]
STUB = ["the thread scheduler (baton; pre-emption at library lines)", "wall clock", "disk (SimDisk over a scratch directory)"]
SHRINK = [["threads"], ["bursts"], ["threads", "*", "ops"], ["rows"], ["sched"]]


def draw_bursts(rng):
    mode = rng.random()
    n = rng.choice([3, 10, 40, 120])
    if mode < 0.3:  # a few well-placed pre-emptions
        return [rng.randint(1, 4000) for _ in range(rng.randint(1, 6))]
    if mode < 0.6:
        return [rng.choice([1, 2, 3, 7, 40, 300]) for _ in range(n)]
    return [rng.randint(1, 150) for _ in range(n)]


def plan(rng, tier):
    if rng.random() < 0.12:
        th = [{"what": "log", "ops": [rng.choice(["get", "child", "verb", "msg"]) for _ in range(rng.randint(1, 3))]} for _ in range(rng.randint(2, 3))]
        return {"what": "logger", "threads": th, "level": rng.choice([logging.ERROR, logging.WARNING, logging.DEBUG]), "bursts": [rng.randint(1, 6) for _ in range(rng.randint(1, 14))], "sched": [rng.randrange(1 << 16) for _ in range(40)]}
    p = p01.base_plan(rng, tier, 13)
    p["clock"] = []
    p["what"] = "work"
    if rng.random() < 0.25:
        p["opts"]["labeler"] = True
    p["file"] = files.draw(rng, rng.choice(["csv", "csv", "jsonl"]), max_rows=10)
    p["text"] = [" ".join(rng.choice(files.WORDS + ["The", "of"]) for _ in range(rng.randint(0, 5))) for _ in range(6)]
    th = []
    for _ in range(rng.choice([2, 2, 3])):
        kind = rng.choice(["profile", "profile", "profile", "text", "read"])
        t = {"what": kind, "ops": []}
        if kind == "profile":
            ids = list(range(len(p["rows"])))
            rng.shuffle(ids)
            names = "ab"
            for b in gen.batches(rng, ids, 3):
                t["ops"].append(["deliver", rng.choice(names), b, "global"])
            if rng.random() < 0.4:
                t["ops"].append(["merge", "a", "b", "c"])
            if rng.random() < 0.3:
                t["ops"].insert(rng.randint(0, len(t["ops"])), ["bad", "a"])
            if rng.random() < 0.3:
                t["ops"].append(["diff", "a", "b"])
        elif kind == "text":
            t["ops"] = [["text", rng.randint(1, 5)] for _ in range(rng.randint(1, 3))]
        else:
            t["ops"] = [["read", rng.choice(["path", "bytes"])] for _ in range(rng.randint(1, 2))]
        th.append(t)
    p["threads"] = th
    p["bursts"] = draw_bursts(rng)
    p["sched"] = [rng.randrange(1 << 16) for _ in range(len(p["bursts"]) + 5)]
    return p


def job(env, plan, t, shared, i):
    """The work of one thread, as a function giving JSON-able results."""
    dp = env.dp

    def go():
        out = []
        if t["what"] == "profile":
            fl = fleet.Fleet(env, plan)
            fl.options = shared["options"]
            for op in t["ops"]:
                if op[0] == "deliver":
                    fl.deliver(op[1], op[2], op[3])
                elif op[0] == "merge":
                    fl.merge(op[1], op[2], op[3])
                elif op[0] == "bad" and op[1] in fl.nodes:
                    df = fl.pd.DataFrame({"no": ["1"], "such": ["2"], "column": ["3"], "here": ["4"]})
                    try:
                        fl.nodes[op[1]].prof.update_profile(df)
                        out.append(["bad", "accepted"])
                    except ValueError as e:
                        out.append(["bad", "refused"])
                elif op[0] == "diff" and op[1] in fl.nodes and op[2] in fl.nodes:
                    out.append(["diff", canon.canon(call(env, "diff", fl.nodes[op[1]].prof.diff, fl.nodes[op[2]].prof))])
            for n in sorted(fl.nodes):
                r = canon.canon(fl.report(n))
                out.append([n, r])
        elif t["what"] == "text":
            o = dp.ProfilerOptions()
            o.set({"unstructured_options.data_labeler.is_enabled": False})
            q = None
            for op in t["ops"]:
                ls = plan["text"][: op[1]]
                if q is None:
                    q = call(env, "text", dp.UnstructuredProfiler, ls, options=o)
                else:
                    call(env, "text update", q.update_profile, ls)
            if q is not None:
                out.append(["text", canon.canon(call(env, "text report", q.report, {"output_format": "serializable"}))])
        else:
            for op in t["ops"]:
                src = shared["path"] if op[1] == "path" else io.BytesIO(shared["body"])
                out.append(["read", op[1], files.outcome(lambda: dp.Data(src))])
        return out

    return go


def compare(i, t, got, want):
    what = f"thread {i} ({t['what']})"
    if len(got) != len(want):
        raise Violation("threads-interfere:results", f"{what}: {len(got)} results, alone {len(want)}")
    for g, w in zip(got, want):
        if g[0] == "read" or not isinstance(g[1], dict):
            if g != w:
                raise Violation(f"threads-interfere:{g[0]}", f"{what}: {str(g)[:400]}, alone {str(w)[:400]}")
            continue
        # sums may differ in the last bit, see P17
        d = canon.diff_reports(g[1], w[1], 1e-12, ignore={"precision"}, skip={"times"})
        if d:
            raise Violation("threads-interfere:" + canon.strip_idx(d[0]).rsplit("/", 1)[-1], f"{what}: {g[0]} {d[0]} is {d[1]!r:.300}, alone {d[2]!r:.300}")


def run(plan, env):
    if plan["what"] == "logger":
        return run_logger(plan, env)
    body, _ = files.render(plan["file"])
    shared = {"options": call(env, "options", fleet.make_options, env.dp, plan["opts"], env.cache), "body": body, "path": readers.put_file(env, "f", body)}
    env.dp.set_seed(5)
    want = []
    for i, t in enumerate(plan["threads"]):
        try:
            want.append(job(env, plan, t, shared, i)())
        except Violation:
            raise
        except Exception as e:
            want.append(repr(e))
    s = sched.Sched(env, plan["bursts"])
    ts = s.run([job(env, plan, t, shared, i) for i, t in enumerate(plan["threads"])])
    finish(env, s, ts)
    for i, (t, w) in enumerate(zip(ts, want)):
        if t.error is not None:
            if isinstance(w, str) and repr(t.error) == w:
                continue
            e = t.error
            raise Violation("threads-interfere:" + (e.kind if isinstance(e, Violation) else type(e).__name__), f"thread {i} ({plan['threads'][i]['what']}) failed with {e!r:.500}; alone it does not")
        if isinstance(w, str):
            raise Violation("threads-interfere:no-error", f"thread {i}: alone {w}")
        compare(i, plan["threads"][i], t.result, w)
    env.state_keys.add(f"{sorted(t['what'] for t in plan['threads'])}/{min(s.switches, 100) // 10}")
    env.log("end")


def finish(env, s, ts):
    env.sw = s.switches
    if s.deadlock:
        raise Violation("deadlock", f"threads {s.deadlock}")
    if any(t.state != "done" for t in ts):
        raise Violation("no-progress", f"threads {[(t.i, t.state) for t in ts]}")


def run_logger(plan, env):
    origin = os.path.abspath(env.dp.dp_logging.__file__)
    spec = importlib.util.spec_from_file_location("dpsim_fresh_logging", origin)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)  # the module as a new process has it
    lg = logging.getLogger("DataProfiler")
    keep = (lg.handlers, lg.level, lg.propagate)
    lg.handlers, lg.propagate = [], False
    lg.setLevel(logging.NOTSET)
    set_by = [i for i, t in enumerate(plan["threads"]) if "verb" in t["ops"]]
    try:

        def job(i, t):
            def go():
                for k, op in enumerate(t["ops"]):
                    if op == "get":
                        mod.get_logger()
                    elif op == "child":
                        mod.get_child_logger("dataprofiler.part%d" % i)
                    elif op == "verb":
                        mod.set_verbosity(plan["level"])
                    else:
                        mod.get_logger().critical("m%d.%d", i, k)

            return go

        s = sched.Sched(env, plan["bursts"])
        ts = s.run([job(i, t) for i, t in enumerate(plan["threads"])])
        finish(env, s, ts)
        for t in ts:
            if t.error is not None:
                raise Violation(f"logger-error:{type(t.error).__name__}", repr(t.error))
        if len(lg.handlers) > 1:
            raise Violation("logger-duplicate-handlers", f"{len(lg.handlers)} handlers: every message will appear {len(lg.handlers)} times")
        if set_by and lg.level != plan["level"]:
            raise Violation("logger-verbosity-lost", f"set_verbosity({plan['level']}) was called, the level is {lg.level}")
        env.probe("logger_first_use")
        env.state_keys.add(f"logger/{len(ts)}/{min(s.switches, 10)}")
    finally:
        lg.handlers, lg.propagate = keep[0], keep[2]
        lg.setLevel(keep[1])


def nontrivial(plan, env):
    return getattr(env, "sw", 0) >= 2
