"""P14: a profile file is loaded whole or not at all."""
import os

from .. import canon, disk, fleet, persist
from ..core import SimCrash, Violation, call
from . import p01, p07, p11

ID = "P14"
RUNS = {"quick": (500, 300), "thorough": (16000, 3000)}
RULE = (
    "one run = a short history, a save (pickle or JSON), then damage (cut at any byte, tail replaced by zeros, a save over it that died at any raw write, an unrelated file in its place) "
    "or read faults (I/O error at the n-th read, open refused, short reads), then loads with every loader and load_method; a load either raises or returns exactly the saved profile, "
    "leaves the file and all other profiles alone, closes its files, and works once the fault is gone; two loads are independent of each other; non-trivial = at least one damaged or faulty load"
)
STATES = "(method, damage, outcome)"
REAL = p01.REAL + ["save, load, pickle, JSON encoder and decoders"]
STUB = p11.STUB
SHRINK = [["ops"], ["tries"], ["rows"], ["ops", "*", 2], ["clock"]]
OTHER = [b"", b"\x00" * 64, b"a,b\n1,2\n", b"{}", b"[]", b'{"class": "StructuredProfiler"}', b"null", b"\x80\x04.", b"\x80\x04N.", b"{\"class\": \"Nope\", \"data\": {}}", b"PAR1xxxxPAR1"]


def plan(rng, tier):
    p = p07.plan(rng, tier)
    p["ops"] = [o for o in p["ops"] if o[0] != "report"][:6]
    p["method"] = rng.choice(["pickle", "json"])
    if p["method"] == "json":
        p["opts"]["set"].pop("structured_options.category.cms", None)
        p["opts"]["set"].pop("structured_options.row_statistics.unique_count.hashing_method", None)
    tries = []
    for _ in range(rng.randint(2, 6)):
        dmg = rng.choice(["cut", "cut", "cut", "zero", "died", "other", "none", "none", "none"])
        arg = {"cut": rng.choice([0, 1, 2, 5, 999, 998, 997, -1, -2, rng.randint(0, 1000)]), "zero": rng.randint(0, 999), "died": [rng.choice([0, 0, 1, 2]), "crash_torn@%d" % rng.randint(0, 1000)], "other": rng.randrange(len(OTHER))}.get(dmg)
        flt = []
        if dmg == "none":
            flt = rng.choice([[["read", rng.choice([0, 0, 1, 2, 5, 9]), rng.choice(["eio", "eio", "short"])]], [["open_r", 0, rng.choice(["eacces", "emfile", "enoent"])]], [["open_r", 1, "eio"]], [["read", i, "short"] for i in range(0, 40, 2)], []])
        tries.append([dmg, arg, flt, rng.randint(0, 3), rng.choice([None, p["method"], p["method"].upper(), "other"])])
    p["tries"] = tries
    p["more"] = rng.sample(range(len(p["rows"])), min(len(p["rows"]), 3))
    p["buf"] = rng.choice([64, 512, 8192])
    return p


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    for k, op in enumerate(plan["ops"]):
        p07.salted(env, plan, fl, k, op)
    if not fl.nodes:
        return
    d = env.disk = disk.SimDisk(env, env.scratch + "/d", buf=plan.get("buf", 512))
    name = sorted(fl.nodes)[-1]
    live = fl.nodes[name]
    method = plan["method"]
    path, bad = d.path("good"), d.path("bad")
    call(env, "save", live.prof.save, path, save_method=method)
    d.handles = []
    with open(path, "rb") as f:
        whole = f.read()
    rep = lambda p: call(env, "report", p.report, {"output_format": "serializable"})  # noqa: E731
    want = rep(live.prof)
    env.bad = 0

    def same(p, what):
        df = canon.diff_reports(rep(p), want, 1e-12, skip=persist.FULL)
        if df:
            raise Violation("loaded-silently-wrong:" + canon.strip_idx(df[0]), f"{what}: {df[0]} is {df[1]!r}, saved was {df[2]!r}")

    def load(which, lm, p):
        cls = [env.dp.Profiler, env.dp.StructuredProfiler][which % 2]
        return cls.load(p, lm)

    for dmg, arg, flt, which, lm in plan["tries"]:
        if lm == "other":
            lm = "json" if method == "pickle" else "pickle"
        mismatch = lm is not None and lm.lower() != method
        data = whole
        if dmg == "cut":
            data = whole[: len(whole) * arg // 1000] if arg >= 0 else whole[:arg]
        elif dmg == "zero":
            n = len(whole) * arg // 1000
            data = whole[:n] + b"\0" * (len(whole) - n)
        elif dmg == "other":
            data = OTHER[arg]
        if dmg == "died":
            with open(bad, "wb") as f:
                f.write(whole)
            d.arm([["write", arg[0], arg[1]]])
            try:
                live.prof.save(bad, save_method=method)
            except SimCrash:
                pass
            except Exception as e:
                raise Violation(f"unexpected-exception:save:{type(e).__name__}", repr(e)) from e
            d.restart()
            with open(bad, "rb") as f:
                data = f.read()
        else:
            with open(bad, "wb") as f:
                f.write(data)
            env.fault("file_" + dmg) if dmg != "none" else None
        intact = data == whole
        d.handles = []
        before = dict(env.faults)
        d.arm(flt)
        got = err = None
        try:
            got = load(which, lm, bad)
        except Exception as e:
            err = e
        d.arm([])
        new = {k for k, v in env.faults.items() if v != before.get(k, 0) and k.startswith("disk")}
        hard = new - {"disk_short_read"}
        env.log("load", dmg, arg, flt, lm, type(err).__name__)
        env.state_keys.add(f"{method}/{dmg}/{sorted(new)}/{lm}/{type(err).__name__}")
        what = f"{method} file, damage {dmg} {arg}, faults {sorted(new)}, load_method={lm}"
        env.bad += bool(not intact or new or mismatch)
        if err is None:
            if hard:
                raise Violation("read-fault-swallowed", f"{what}: load returned normally")
            if mismatch and intact:
                raise Violation("wrong-method-accepted", f"{what}: load returned normally")
            same(got, what)
        elif intact and not hard and not mismatch:
            raise Violation(f"unexpected-exception:load:{type(err).__name__}", f"{what}: {err!r}") from err
        else:
            env.probe("load_refused")
        if d.open_handles():
            raise Violation("handle-left-open", f"{what}: {len(d.open_handles())} file(s) still open")
        with open(bad, "rb") as f:
            if f.read() != data:
                raise Violation("file-changed-by-load", what)
        # faults are gone: the good file still gives the profile
        if dmg == "none":
            same(call(env, "load", load, which, None, bad), what + ", tried again")
            env.probe("retry_succeeded")
    # two loads are two profiles
    a, b = (call(env, "load", env.dp.Profiler.load, path) for _ in range(2))
    df = fl.frame(fl.ids(plan["more"]))
    if len(df):
        call(env, "update", a.update_profile, df.iloc[:, live.order])
    same(b, "second load after the first was updated")
    same(live.prof, "live profile after loads")
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "bad", 0) > 0
