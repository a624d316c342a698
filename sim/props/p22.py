"""P22: a saved data labeler comes back labelling exactly as before."""
import os

from .. import disk, labworld
from ..core import SimCrash, Violation, call

ID = "P22"
RUNS = {"quick": (3000, 300), "thorough": (30000, 3000)}
RULE = (
    "one run = one data labeler going through predictions, parameter changes, saves to directories and loads, each save or load possibly meeting a disk fault or a crash; "
    "a hard write fault makes the save raise; a completed save loads as a labeler with the same components, parameters, labels and predictions (drawn ones included: the random state is part of it); "
    "an incomplete save or a read fault makes loading raise or give exactly that labeler; the live labeler goes on as if never saved; non-trivial = at least one load was attempted"
)
STATES = "(kind, op, fault, outcome)"
REAL = ["BaseDataLabeler save/load, RegexModel, ColumnNameModel, all pre- and postprocessors, JSON"]
STUB = ["disk (SimDisk over a scratch directory)", "the neural network (labels every character by itself)", "tensorflow (one helper)"]
SHRINK = [["ops"], ["texts"], ["ops", "*", 2]]


def plan(rng, tier):
    spec = labworld.draw(rng)
    p = {"spec": spec, "texts": [labworld.text(rng, spec["kind"]) for _ in range(rng.randint(1, 6))], "buf": rng.choice([16, 64, 512, 8192])}
    ops = []
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(["predict", "change", "save", "save", "load", "load", "continue"])
        if k == "save":
            x = rng.choice(["none", "none", "open_w", "write", "write", "close"])
            kind = {"open_w": ["eacces", "enospc", "emfile", "crash"], "close": ["eio", "enospc", "crash"]}.get(x, ["eio", "enospc", "short", "torn@500", "torn@0", "torn@999", "crash", "crash_torn@300", "crash_torn@900"])
            ops.append(["save", rng.randint(0, 1), [] if x == "none" else [[x, rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]) if x == "write" else rng.randint(0, 4), rng.choice(kind)]], rng.choice([None, None, 0, 500, 900])])
        elif k == "load":
            x = rng.choice(["none", "none", "open_r", "read", "read"])
            kind = {"open_r": ["eio", "eacces", "emfile"]}.get(x, ["eio", "short"])
            ops.append(["load", rng.randint(0, 1), [] if x == "none" else [[x, rng.randint(0, 5), rng.choice(kind)]]])
        elif k == "continue":  # go on with the loaded labeler instead of the live one
            ops.append(["continue", rng.randint(0, 1)])
        elif k == "predict":
            ops.append(["predict", rng.randrange(4), rng.choice([1, 2, 32])])
        else:
            ops.append(["change", rng.randrange(6), rng.randrange(1000)])
    ops.insert(rng.randint(0, len(ops)), ["save", 0, [], None])
    ops.append(["load", 0, []])
    p["ops"] = ops
    return p


def change(spec, which, x):
    """A parameter change as (component, keyword arguments), by the labeler's kind."""
    k = spec["kind"]
    if k in ("regex", "struct_regex"):
        c = [
            ("model", {"ignore_case": bool(x % 2)}),
            ("model", {"encapsulators": {"start": ["", "^"][x % 2], "end": ["", "$"][x // 2 % 2]}}),
            ("model", {"regex_patterns": {"A": [[r"\d+"], [r"[a-z]"], []][x % 3], "B": [r"[,.]"]}}),
            ("label", "NEW%d" % (x % 3)),
        ]
        if k == "regex":
            c += [("postprocessor", {"aggregation_func": ["split", "priority", "random"][x % 3]}), ("postprocessor", {"priority_order": [[4, 3, 2, 1, 0], [0, 2, 1, 4, 3]][x % 2]})]
    elif k == "column":
        c = [("all", {"positive_threshold_config": 50 + x % 50}), ("label", "NEW%d" % (x % 3))]
    else:
        c = [("preprocessor", {"max_length": 10 + x % 30}), ("preprocessor", {"is_separate_at_max_len": bool(x % 2)})]
        if k == "char":
            c += [("postprocessor", {"output_format": ["ner", "character_argmax"][x % 2]}), ("preprocessor", {"flatten_split": [0, 1, 0.25][x % 3]})]
        else:
            c += [("postprocessor", {"is_pred_labels": bool(x % 2)})]
    return c[which % len(c)]


def apply(lab, ch):
    if ch[0] == "label":
        if ch[1] not in lab.label_mapping:
            lab.add_label(ch[1])
    elif ch[0] == "all":  # this model validates whole parameter sets only
        ps = lab.model.get_parameters()
        ps.pop("label_mapping")
        lab.set_params({"model": dict(ps, **ch[1])})
    else:
        lab.set_params({ch[0]: ch[1]})


def params(lab):
    """Everything a user can read off a labeler."""
    out = {"labels": list(lab.labels), "mapping": lab.label_mapping}
    for n in ("preprocessor", "model", "postprocessor"):
        c = getattr(lab, n)
        ps = c.get_parameters()
        rp = ps.pop("regex_processor", None)
        if rp is not None:
            ps.update({"regex." + k: v for k, v in rp.get_parameters().items()})
        out[n] = [type(c).__name__, {k: labworld.plain(v.getstate() if hasattr(v, "getstate") else v) for k, v in ps.items()}]
    return out


def differ(a, b):
    if a == b:
        return None
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], list) and len(a[k]) == 2 and isinstance(a[k][1], dict) and a[k][0] == b[k][0]:
                for q in sorted(set(a[k][1]) | set(b[k][1])):
                    if a[k][1].get(q) != b[k][1].get(q):
                        return f"{k}.{q}", a[k][1].get(q), b[k][1].get(q)
            return k, a[k], b.get(k)
    return "keys", sorted(a), sorted(b)


class Saved:
    def __init__(self, history, p):
        self.history, self.params = history, p


def replay(spec, history, texts):
    """The labeler that went through these predictions and changes without ever being saved."""
    lab = labworld.build(spec)
    for h in history:
        step(lab, h, texts)
    return lab


def step(lab, op, texts):
    if op[0] == "predict":
        return labworld.ask(lab, texts, op[1], op[2])
    return apply(lab, op[1])


def run(plan, env):
    if not plan["texts"]:
        return
    from dataprofiler.labelers.base_data_labeler import BaseDataLabeler

    d = env.disk = disk.SimDisk(env, env.scratch + "/d", buf=plan["buf"])
    spec, texts = plan["spec"], plan["texts"]
    what = f"{spec['kind']} labeler"
    lab = call(env, "build", labworld.build, spec)
    history = []  # what the live labeler went through
    slots = {}  # slot -> [directory, Saved or None (incomplete), candidates]
    loads = env.loads = 0
    gens = 0
    for op in plan["ops"]:
        env.log(*[str(x) for x in op])
        if op[0] == "predict":
            got = call(env, "predict", step, lab, op, texts)
            twin = call(env, "twin", replay, spec, history, texts)
            want = call(env, "twin predict", step, twin, op, texts)
            if got != want:
                raise Violation("labeler-diverged", f"{what}: predictions {str(got)[:300]}, one that was never saved or loaded predicts {str(want)[:300]}")
            history.append(op)
        elif op[0] == "change":
            ch = change(spec, op[1], op[2])
            call(env, "set_params", apply, lab, ch)
            history.append(["change", ch])
        elif op[0] == "save":
            _, slot, faults, keep = op
            if faults or slot not in slots:
                gens += 1
                slots.pop(slot, None)
                path = d.path(f"lab{slot}_{gens}")  # a save that may fail goes to a new directory
            else:
                path = slots[slot][0]
            os.makedirs(path, exist_ok=True)
            d.arm(faults)
            before = dict(env.faults)
            raised = crashed = None
            try:
                lab.save_to_disk(path)
            except SimCrash:
                crashed = True
            except Exception as e:
                raised = e
            d.arm([])
            new = {k for k, v in env.faults.items() if v != before.get(k, 0)}
            hard = {k for k in new if k.startswith("disk")} - {"disk_short_write"}
            env.log(sorted(new), type(raised).__name__)
            if raised is not None and not hard:
                raise Violation(f"unexpected-exception:save:{type(raised).__name__}", f"saving the {what} with {sorted(new)}: {raised!r}")
            if raised is None and not crashed and hard:
                raise Violation("save-fault-swallowed", f"saving the {what} met {sorted(hard)} and returned normally")
            slots[slot] = [path, Saved(list(history), params(lab)), not (raised or crashed)]
            if raised is not None and d.open_handles():
                raise Violation("handle-left-open", f"{len(d.open_handles())} files open after a failed save")
            d.handles = []
            if crashed:
                d.restart(keep)
                env.probe("crash_in_save")
                # the process is gone; a new one starts over
                lab = call(env, "build", labworld.build, spec)
                history = []
            elif raised is None:
                d.synced()
            env.state_keys.add(f"{spec['kind']}/save/{sorted(new)}/{type(raised).__name__}")
        else:
            slot = op[1]
            if slot not in slots:
                continue
            path, saved, complete = slots[slot]
            faults = op[2] if op[0] == "load" else []
            d.arm(faults)
            before = dict(env.faults)
            got = raised = None
            try:
                got = BaseDataLabeler.load_from_disk(path)
            except Exception as e:
                raised = e
            d.arm([])
            new = {k for k, v in env.faults.items() if v != before.get(k, 0)}
            hard = new - {"disk_short_read"}
            env.loads += 1
            env.state_keys.add(f"{spec['kind']}/load/{complete}/{sorted(new)}/{type(raised).__name__}")
            if raised is not None:
                env.probe("load_refused")
                if complete and not hard:
                    raise Violation(f"unexpected-exception:load:{type(raised).__name__}", f"loading the {what} with {sorted(new)}: {raised!r}")
                continue
            df = differ(saved.params, call(env, "parameters", params, got))
            if df:
                raise Violation(f"loaded-differs:{df[0]}", f"{what}: saved {df[1]!r:.300}, loaded {df[2]!r:.300} ({'complete' if complete else 'incomplete'} save, {sorted(new)})")
            twin = call(env, "twin", replay, spec, saved.history, texts)
            for probe in (["predict", 0, 32], ["predict", 1, 2]):
                g = call(env, "loaded predict", step, got, probe, texts)
                w = call(env, "twin predict", step, twin, probe, texts)
                if g != w:
                    raise Violation("loaded-predicts", f"{what}: the loaded labeler predicts {str(g)[:300]}, the saved one {str(w)[:300]}")
            env.probe("loaded_and_compared")
            if op[0] == "continue":
                lab = got
                history = saved.history + [["predict", 0, 32], ["predict", 1, 2]]


def nontrivial(plan, env):
    return getattr(env, "loads", 0) > 0
