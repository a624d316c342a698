"""P20: a read that meets a fault raises or returns exactly the data."""
import io

from .. import files, readers
from ..core import Violation, lib_frame
from . import p19

ID = "P20"
RUNS = {"quick": (700, 300), "thorough": (20000, 3000)}
RULE = (
    "one run = one file read fault-free, then several times with faults placed anywhere in the sequence of reads (disk: failed open, I/O error at the n-th read, short reads; caller's buffer: failing read; "
    "HTTP: reset, early close, timeout, error status at any byte; S3 stream cut or reset), while the type is detected or while the data is loaded; each attempt either raises or gives the class and data of the fault-free read, "
    "short reads alone never raise, files are closed, buffers stay open, and the same source (or the same reader object) reads correctly once the fault is gone; non-trivial = at least one fault was met"
)
STATES = "(format, route, stage, fault kinds, outcome)"
REAL, STUB = p19.REAL, p19.STUB
SHRINK = [["tries"], ["file", "rows"], ["tries", "*", "faults"]]


def plan(rng, tier):
    p = {"file": files.draw(rng, max_rows=rng.choice([12, 40])), "opt": rng.choice(readers.OPTS), "sel": rng.randint(0, 5), "direct": rng.random() < 0.15, "buf": rng.choice([64, 512, 512, 8192])}
    if rng.random() < 0.3:
        files.enrich(rng, p["file"])
    p["tries"] = []
    for _ in range(rng.randint(3, 6)):
        route = rng.choice(["path", "path", "path", "bytes", "bytes", "url", "s3"])
        if p["direct"] and route in ("url", "s3"):
            route = "path"
        t = {"route": route, "stage": rng.choice(["all", "all", "data"]), "faults": []}
        if route == "path":
            k = rng.random()
            if k < 0.6:
                t["faults"] = [["read", rng.randint(0, 999), "eio"] for _ in range(rng.choice([1, 1, 2]))]
            elif k < 0.8:
                t["faults"] = [["open_r", rng.randint(0, 999), rng.choice(["eacces", "emfile", "enoent", "eio"])]]
            else:
                t["faults"] = [["read", x, "short"] for x in range(0, 1000, rng.choice([1, 3, 100]))]
                if rng.random() < 0.3:
                    t["faults"].append(["read", rng.randint(0, 999), "eio"])
        elif route == "bytes":
            t["faults"] = [["read", rng.randint(0, 999), "eio"] for _ in range(rng.choice([1, 1, 2]))]
        elif route == "url":
            t["script"] = readers.script(rng)
            t["stage"] = "all"
            if rng.random() < 0.2:
                t["script"]["status"] = rng.choice([404, 403, 500, 503])
            else:
                t["script"]["fault"] = [rng.choice(["reset", "eof", "timeout"]), rng.choice([0, 500, 999, -1, -2, -6, rng.randint(0, 999)])]
        else:
            t["stage"] = "all"
            t["s3"] = [rng.choice(["reset", "eof"]), rng.choice([0, 500, 999, rng.randint(0, 999)])]
        p["tries"].append(t)
    return p


def run(plan, env):
    d = plan["file"]
    body, text = files.render(d)
    path = readers.put_file(env, "f", body)
    dk = env.disk
    env.met = 0

    def see(mk):
        env.reset_random(1)
        return files.outcome(mk)

    def attempt(mk, stage, arm, disarm):
        """-> (outcome or None, error or None, reader or None)"""
        o = None
        try:
            env.reset_random(1)
            if stage == "data":
                o = mk()
                arm()
                o.data
                disarm()
                return files.outcome(lambda: o), None, o
            arm()
            r = files.outcome(mk)
            return r, None, None
        except Violation:
            raise
        except Exception as e:
            return None, e, o
        finally:
            disarm()

    # fault-free: the reference, and how many operations there are to disturb
    try:
        base = see(readers.make(env, plan, path))
    except Exception as e:
        env.log("refused", type(e).__name__)
        return
    total = {}
    for st in ("all", "data"):
        mk = readers.make(env, plan, path)
        if st == "all":
            dk.arm([])
            see(mk)
            total["path", st] = dict(dk.ctr)
            fb = readers.FaultyBuffer(body, env)
            see(readers.make(env, plan, fb))
            total["bytes", st] = {"read": fb.n}
        else:
            o = mk()
            dk.arm([])
            o.data
            total["path", st] = dict(dk.ctr)
            fb = readers.FaultyBuffer(body, env)
            o = readers.make(env, plan, fb)()
            fb.n = 0
            o.data
            total["bytes", st] = {"read": fb.n}
    env.log("base", base["class"], sorted(total.items()))

    for t in plan["tries"]:
        before = dict(env.faults)
        dk.handles = []
        real = None
        tot = total.get((t["route"], t["stage"]), {})
        arm = disarm = lambda: None  # noqa: E731
        refuse = False
        if t["route"] == "path":
            src = path
            fl = [[op, tot.get(op, 0) * pm // 1000, kind] for op, pm, kind in t["faults"]]
            arm, disarm = (lambda: dk.arm(fl)), (lambda: dk.arm([]))
        elif t["route"] == "bytes":
            src = readers.FaultyBuffer(body, env)

            def arm():
                src.n, src.fail = 0, {tot.get("read", 0) * pm // 1000 for _, pm, _ in t["faults"]}

            def disarm():
                src.fail = set()

        elif t["route"] == "url":
            src = readers.put_url(env, body, t["script"])
            refuse = t["script"].get("status", 200) >= 400
            if refuse:
                env.fault("http_error_status")
        else:
            import boto3

            real, src = boto3.client, "s3://bucket/f"
            boto3.client = lambda *a, **k: readers.FakeS3(env, body, t["s3"])
        try:
            got, err, obj = attempt(readers.make(env, plan, src), t["stage"], arm, disarm)
        finally:
            if real:
                boto3.client = real
        new = sorted(k for k, v in env.faults.items() if v != before.get(k, 0))
        hard = [k for k in new if k != "disk_short_read"]
        env.met += bool(new)
        what = f"{d['fmt']} file by {t['route']} ({t['stage']}), met {new}"
        env.log(t["route"], t["stage"], new, type(err).__name__ if err else "ok")
        env.state_keys.add(f"{d['fmt']}/{t['route']}/{t['stage']}/{new}/{type(err).__name__ if err else 'ok'}")
        if err is None:
            if refuse:
                raise Violation("error-page-read-as-data", f"{what}: {got['class']}")
            df = files.differ(got, base)
            if df:
                raise Violation(f"fault-changes-data:{t['route']}:{df[0]}", f"{what}: {df[0]} {df[1]} (with fault vs without)")
        elif not hard:
            raise Violation(f"unexpected-exception:read:{type(err).__name__}", f"{what}: {err!r:.300} at {lib_frame(err)}") from err
        if t["route"] == "path" and dk.open_handles():
            raise Violation("handle-left-open", f"{what}: {len(dk.open_handles())} file(s) still open; {type(err).__name__} at {lib_frame(err) if err else ''}")
        where = f" at {lib_frame(err)}" if err else ""
        err = None
        if t["route"] == "bytes" and src.closed:
            raise Violation("buffer-closed", f"{what}: the caller's buffer was closed{where}")
        # the fault is over: the same source reads correctly, and so does the same reader
        for again in ([obj] if obj is not None else []) + (["src"] if t["route"] in ("path", "bytes") else []):
            try:
                r = see(readers.make(env, plan, src)) if isinstance(again, str) else see(lambda: again)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"unexpected-exception:retry:{type(e).__name__}", f"{what}; tried again without faults{where}: {e!r:.300} at {lib_frame(e)}") from e
            df = files.differ(r, base)
            if df:
                raise Violation(f"retry-differs:{t['route']}:{df[0]}", f"{what}; tried again without faults{where}: {df[0]} {df[1]}")
            env.probe("retry_same")


def nontrivial(plan, env):
    return getattr(env, "met", 0) > 0
