"""P25: labels end up at the texts and characters they were predicted for."""
from .. import labworld, sched
from ..core import Violation, call

ID = "P25"
RUNS = {"quick": (6000, 300), "thorough": (40000, 3000)}
RULE = (
    "one run = one data labeler (regex or character pipeline, any flattening, maximum length, separator, aggregation), asked for predictions of seeded texts in seeded portions, input types and batch sizes, "
    "alone, interleaved by real threads under the seeded scheduler, and after a prediction that failed in the model; every text gets exactly the labels of its own characters whatever else is in the call; "
    "training data made by the preprocessors carries every character once with its own label; non-trivial = at least two texts in one call"
)
STATES = "(pipeline, flattening, portions, threads)"
REAL = ["BaseDataLabeler.predict, CharPreprocessor, StructCharPreprocessor, CharPostprocessor, StructCharPostprocessor, RegexModel, RegexPostProcessor, StructRegexPostProcessor", "real threads"]
STUB = ["the neural network (labels every character by itself)", "tensorflow (one helper)", "thread scheduler"]
SHRINK = [["texts"], ["portions"], ["threads"], ["bursts"], ["sched"]]


def plan(rng, tier):
    kind = rng.choice(["regex", "struct_regex", "char", "char", "struct_char", "struct_char"])
    p = {"spec": labworld.draw(rng, kind), "texts": [labworld.text(rng, kind) for _ in range(rng.randint(1, 9))], "sched": [rng.randrange(1 << 16) for _ in range(60)]}
    n = len(p["texts"])
    p["portions"] = []
    for _ in range(rng.randint(1, 3)):
        ids = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]
        p["portions"].append([ids, rng.randrange(12), rng.choice([1, 2, 3, 32]), rng.random() < 0.3])
    p["what"] = rng.choices(["predict", "threads", "fault", "train"], [5, 2, 2, 3])[0]
    if p["what"] == "train" and "char" not in kind:
        p["what"] = "predict"
    p["fault"] = rng.randint(0, 3)
    p["threads"] = rng.choice([2, 2, 3])
    p["bursts"] = [rng.choice([1, 2, 5, 20, 80, 300]) for _ in range(rng.choice([3, 20, 60]))]
    p["spans"] = [[rng.random(), rng.random(), rng.choice("ABC")] for _ in range(n)]
    return p


def one(env, plan, lab, portion, what):
    ids, how, bs, conf = portion
    texts = [plan["texts"][i % len(plan["texts"])] for i in ids]
    got = call(env, "predict", labworld.ask, lab, texts, how, bs, conf)
    labworld.check(plan["spec"], texts, got, what)
    if conf:
        labworld.check_conf(plan["spec"], texts, got, what)
    return got


class Broken(Exception):
    pass


def run(plan, env):
    if not plan["texts"]:
        return
    s = plan["spec"]
    lab = call(env, "build", labworld.build, s)
    what = f"{s['kind']} labeler"
    env.big = max([len(x[0]) for x in plan["portions"]] or [0])
    if plan["what"] == "train":
        return train(plan, env, lab)
    if plan["what"] == "fault" and "char" in s["kind"]:

        def hook(k, n):
            if k == plan["fault"]:
                env.fault("model_failure")
                raise Broken(f"batch {k}")

        lab.model.hook = hook
        for p in plan["portions"]:
            try:
                labworld.ask(lab, [plan["texts"][i % len(plan["texts"])] for i in p[0]], p[1], p[2], p[3])
            except Broken:
                env.probe("prediction_failed")
            except Exception as e:
                raise Violation(f"unexpected-exception:predict:{type(e).__name__}", f"{what}: {e!r}")
        lab.model.hook = None
    if plan["what"] == "threads" and s["kind"] not in ("struct_char",) and s.get("agg") != "random":
        sc = sched.Sched(env, plan["bursts"])

        def job(i):
            return lambda: [one(env, plan, lab, p, f"{what}, thread {i}") for p in plan["portions"][i % len(plan["portions"]) :]]

        ts = sc.run([job(i) for i in range(plan["threads"])])
        if sc.deadlock:
            raise Violation("deadlock", f"threads {sc.deadlock}")
        for t in ts:
            if t.error is not None:
                raise t.error if isinstance(t.error, Violation) else Violation(f"threads:{type(t.error).__name__}", repr(t.error))
        env.probe("threads_shared_labeler")
    else:
        for p in plan["portions"]:
            one(env, plan, lab, p, what)
    env.state_keys.add(f"{s['kind']}/{s.get('split', s.get('agg'))}/{len(plan['portions'])}/{plan['what']}")
    env.log(s["kind"], plan["what"], plan["texts"], plan["portions"])


def train(plan, env, lab):
    """What the preprocessor hands to a model that is being trained."""
    import numpy as np

    s, LM = plan["spec"], labworld.LM
    sep = s["sep"] if s["sep"].strip() else "\x02"
    if sep != s["sep"]:
        lab.preprocessor.set_params(flatten_separator=sep)
    texts = plan["texts"]
    labels, want = np.empty(len(texts), dtype=object), []
    for i, t in enumerate(texts):
        a, b, l = plan["spans"][i]
        if s["kind"] == "struct_char":
            labels[i] = l if a < 0.8 else "UNKNOWN"
            want += [LM[labels[i]]] * len(t)
        else:
            x, y = sorted((int(a * len(t)), int(b * len(t)) + 1))
            labels[i] = [(x, y, l)] if len(t) > 1 else []
            w = [1] * len(t)
            if labels[i]:
                w[x:y] = [LM[l]] * (min(y, len(t)) - x)
            want += w
    bs = plan["portions"][0][2] if plan["portions"] else 2
    gen = call(env, "process", lambda: list(lab.preprocessor.process(np.array(texts, dtype=object), labels, dict(LM), batch_size=bs)))
    chars, got = "", []
    for k, (X, Y) in enumerate(gen):
        if len(X) != len(Y) or not 1 <= len(X) <= bs + 1 or (len(X) != bs and k < len(gen) - 1):
            raise Violation("train-batch", f"batch {k} of {len(gen)} has {len(X)} samples and {len(Y)} labels, asked for {bs}")
        for (t,), y in zip(X, Y):
            y = np.argmax(np.array(y), axis=-1).tolist()
            if len(t) > s["max_length"] or len(y) != s["max_length"]:
                raise Violation("train-length", f"sample of {len(t)} characters and {len(y)} labels, maximum length {s['max_length']}")
            for c, l in zip(t, y):
                if c == sep[0]:
                    if l != LM["UNKNOWN"]:
                        raise Violation("train-separator", f"separator labelled {l} in {t!r}")
                else:
                    chars += c
                    got.append(l)
            if any(y[len(t) :]):
                raise Violation("train-padding", f"padding of {t!r} labelled {y[len(t):]}")
    if chars != "".join(texts):
        raise Violation("train-text", f"texts {texts!r} became {chars!r}")
    if got != want:
        raise Violation("train-label", f"texts {texts!r}: labels {got}, must be {want}")
    env.probe("training_data_checked")
    env.state_keys.add(f"{s['kind']}/{s.get('split')}/train/{bs}")


def nontrivial(plan, env):
    return getattr(env, "big", 0) > 1
