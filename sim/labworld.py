"""Data labelers of every kind the library can build without a neural network, and what they must answer."""
import random
import re
import sys
import types

from . import labeler
from .core import Violation

LM = {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3, "C": 4}
PATTERNS = {"A": [r"\d+", r"\d+\.\d+"], "B": [r"[a-f]+", r"[xyz]\d"], "C": [r"[a-c]+", r"[,;]+"]}
ALPHABET = "abcdefxyz0123 ,;.\u00e9\u4e2d"
SEPARATORS = " ,;'\":\n\t."
WORDS = ["ssn", "name", "zip", "birth", "date", "SSN_id", "city", "first name", "dob", ""]


class _Any(types.ModuleType):
    """Stands for any part of tensorflow: can be subclassed, called, used as a decorator."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name[0].isupper() or name == "Layer":
            v = type(name, (), {})
        else:
            v = _Any(name)
        setattr(self, name, v)
        return v

    def __call__(self, *a, **k):
        return lambda x=None, *aa, **kk: x


def stub_tensorflow():
    """Some labeler modules import tensorflow at the top; the simulation never runs a network."""
    if "tensorflow" not in sys.modules:
        import numpy as np

        tf = _Any("tensorflow")

        def to_categorical(y, num_classes=None):
            y = np.array(y, dtype=int)
            out = np.zeros(y.shape + (num_classes,))
            np.put_along_axis(out, y[..., None], 1, axis=-1)
            return out

        tf.keras.utils.to_categorical = to_categorical
        tf.dpsim = True
        sys.modules["tensorflow"] = tf


def char_label(c):
    return 2 + ord(c) % 3 if c.strip() else 1


_CHAR = []


def char_model():
    """A stand-in for the neural network: labels every character by itself."""
    if _CHAR:
        return _CHAR[0]
    import json
    import os

    import numpy as np
    from dataprofiler.labelers.base_model import AutoSubRegistrationMeta, BaseModel

    class SimCharModel(BaseModel, metaclass=AutoSubRegistrationMeta):
        requires_zero_mapping = True
        hook = None  # called before every batch

        def _validate_parameters(self, parameters):
            pass

        def _construct_model(self):
            pass

        def _reconstruct_model(self):
            pass

        def _need_to_reconstruct_model(self):
            return False

        def reset_weights(self):
            pass

        def predict(self, data, batch_size=None, show_confidences=False, verbose=True):
            pred, conf = [], []
            for k, b in enumerate(data):
                if self.hook:
                    self.hook(k, len(b))
                for t in b:
                    p = np.array([char_label(c) for c in t[0]], dtype=int)
                    pred.append(p)
                    conf.append(np.eye(len(LM))[p] if len(p) else np.zeros((0, len(LM))))
            return {"pred": pred, "conf": conf} if show_confidences else {"pred": pred}

        def save_to_disk(self, dirpath):
            with open(os.path.join(dirpath, "model_parameters.json"), "w") as fp:
                json.dump(self._parameters, fp)
            with open(os.path.join(dirpath, "label_mapping.json"), "w") as fp:
                json.dump(self.label_mapping, fp)

        @classmethod
        def load_from_disk(cls, dirpath):
            with open(os.path.join(dirpath, "model_parameters.json")) as fp:
                p = json.load(fp)
            with open(os.path.join(dirpath, "label_mapping.json")) as fp:
                m = json.load(fp)
            return cls(m, p)

    _CHAR.append(SimCharModel)
    return SimCharModel


def draw(rng, kind=None):
    kind = kind or rng.choice(["regex", "regex", "struct_regex", "column", "char", "struct_char"])
    s = {"kind": kind, "seed": rng.randrange(1 << 30)}
    if kind in ("regex", "struct_regex"):
        s["patterns"] = {k: rng.sample(v, rng.randint(0, len(v))) for k, v in PATTERNS.items() if rng.random() < 0.9}
        s["ignore_case"] = rng.random() < 0.5
        s["enc"] = rng.choice([["", ""], ["^", "$"], [r"(?<![\w.\$\%\-])", r"(?:(?=(\b|[ ])))"]])
        s["default"] = rng.choice(["UNKNOWN", "UNKNOWN", "PAD"])
        if kind == "regex":
            s["agg"] = rng.choice(["split", "priority", "random"])
            o = list(range(len(LM)))
            rng.shuffle(o)
            s["order"] = o
            s["order_array"] = rng.random() < 0.3
    elif kind == "column":
        s["true"] = [[rng.choice(WORDS[:-1]), rng.choice(["A", "B", "C"])] for _ in range(rng.randint(1, 4))]
        s["false"] = [[rng.choice(WORDS[:-1]), "UNKNOWN"] for _ in range(rng.randint(0, 2))]
        s["pos"], s["neg"] = rng.choice([60, 85, 95]), rng.choice([50, 80])
    else:
        s["sep"] = rng.choice(["\x01" * 5, "\x01", "\x01\x01"] + ([" "] if kind == "char" else []))
        s["max_length"] = max(len(s["sep"]) + 1, rng.choice([3, 5, 7, 8, 10, 20, 50, 400]))
        s["hard"] = rng.random() < 0.3
        if kind == "char":
            s["split"] = rng.choice([0, 0, 1, 0.5, 0.3])
            s["format"] = rng.choice(["character_argmax", "ner", "NER"])
            s["word"] = rng.choice([None, None, 0.75, 0.75, 0.5, 0.34, 1, 0])
        else:
            s["names"] = rng.random() < 0.7
    return s


def build(s):
    import numpy as np
    from dataprofiler.labelers import column_name_model, regex_model
    from dataprofiler.labelers import data_processing as d
    from dataprofiler.labelers.base_data_labeler import BaseDataLabeler

    stub_tensorflow()
    k = s["kind"]
    if k in ("regex", "struct_regex"):
        m = regex_model.RegexModel(
            label_mapping=dict(LM),
            parameters={
                "regex_patterns": {a: list(b) for a, b in s["patterns"].items()},
                "default_label": s["default"],
                "ignore_case": s["ignore_case"],
                "encapsulators": {"start": s["enc"][0], "end": s["enc"][1]},
            },
        )
        if k == "regex":
            o = np.array(s["order"]) if s["order_array"] else list(s["order"])
            post = d.RegexPostProcessor(aggregation_func=s["agg"], priority_order=o, random_state=random.Random(s["seed"]))
        else:
            post = d.StructRegexPostProcessor(random_state=s["seed"])
        pre = d.DirectPassPreprocessor()
    elif k == "column":
        m = column_name_model.ColumnNameModel(
            label_mapping=dict(LM),
            parameters={
                "true_positive_dict": [{"attribute": a, "label": b} for a, b in s["true"]],
                "false_positive_dict": [{"attribute": a, "label": b} for a, b in s["false"]] or None,
                "negative_threshold_config": s["neg"],
                "positive_threshold_config": s["pos"],
                "include_label": True,
            },
        )
        pre, post = d.DirectPassPreprocessor(), d.ColumnNameModelPostprocessor()
    else:
        m = char_model()(label_mapping=dict(LM), parameters={})
        if k == "char":
            pre = d.CharPreprocessor(max_length=s["max_length"], flatten_split=s["split"], flatten_separator=s["sep"], is_separate_at_max_len=s["hard"])
            post = d.CharPostprocessor(flatten_separator=s["sep"], output_format=s["format"], **({} if s["word"] is None else {"use_word_level_argmax": True, "word_level_min_percent": s["word"]}))
        else:
            pre = d.StructCharPreprocessor(max_length=s["max_length"], flatten_separator=s["sep"], is_separate_at_max_len=s["hard"])
            post = d.StructCharPostprocessor(flatten_separator=s["sep"], is_pred_labels=s["names"], random_state=s["seed"])
    return BaseDataLabeler.load_with_components(pre, m, post)


def text(rng, kind):
    if kind == "column":
        return rng.choice(WORDS)
    n = rng.choice([0, 1, 2, 3, 4, 6, 8, 10, 15, 40])
    if kind == "char" and n > 2 and rng.random() < 0.5:  # words that mostly carry one label
        t = ""
        while len(t) < n:
            t += "".join(rng.choice(rng.choice(["ad", "ad", "be", "cf", "adbe"])) if rng.random() < 0.3 else t[-1:].strip(SEPARATORS) or "a" for _ in range(rng.randint(0, 6)))
            t += rng.choice(SEPARATORS)
        return t[: n if rng.random() < 0.5 else len(t)]
    if kind.endswith("regex"):
        n = max(1, n)
    return "".join(rng.choice(ALPHABET) for _ in range(n))


def plain(x):
    """Predictions as JSON-able values."""
    import numpy as np

    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()] if x.dtype != object else [plain(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(a): plain(b) for a, b in sorted(x.items())}
    if isinstance(x, np.generic):
        return plain(x.item())
    if isinstance(x, float):
        return round(x, 9) if x == x else "nan"
    return x


def ask(lab, texts, how=0, batch_size=32, conf=False):
    import numpy as np
    import pandas as pd

    if how % 6 > 3 and len(texts) % 2 == 0:
        data = np.array(texts, dtype=object).reshape(-1, 2 if how % 6 == 4 else len(texts) // 2 or 1)
        data = data if how % 12 > 5 else pd.DataFrame(data)
    else:
        data = [list, lambda t: np.array(t, dtype=object), lambda t: pd.Series(t, dtype=object), lambda t: pd.DataFrame({"c": pd.Series(t, dtype=object)})][how % 4](texts)
    before = [str(v) for v in np.array(data, dtype=object).reshape(-1)]
    out = plain(lab.predict(data, batch_size=batch_size, predict_options={"show_confidences": conf}, verbose=False))
    after = [str(v) for v in np.array(data, dtype=object).reshape(-1)]
    if before != after:
        raise Violation("labeler-changed-input", f"{before} became {after}")
    return out


# ------------------------------------------------------------- references --
def votes(s, t):
    """Which labels each character carries, by the patterns (one 0/1 row per character)."""
    d = LM[s["default"]]
    rows = [[int(j == d) for j in range(len(LM))] for _ in t]
    fl = re.I if s["ignore_case"] else 0
    for a, ps in s["patterns"].items():
        for p in ps:
            for m in re.compile(s["enc"][0] + p + s["enc"][1], fl).finditer(t):
                for i in range(*m.span()):
                    rows[i][d] = 0
                    rows[i][LM[a]] = 1
    return rows


def spans(lab):
    out, i = [], 0
    while i < len(lab):
        j = i
        while j < len(lab) and lab[j] == lab[i]:
            j += 1
        if lab[i] not in (LM["PAD"], LM["UNKNOWN"]):
            out.append([i, j, [k for k, v in LM.items() if v == lab[i]][0]])
        i = j
    return out


def expect(s, texts):
    """What a prediction must be, per text; a set = any of these (ties are drawn); None = not specified."""
    k = s["kind"]
    out = []
    for t in texts:
        if k == "regex":
            v = votes(s, t)
            if s["agg"] == "split":
                out.append([[round(x / sum(r), 9) for x in r] for r in v])
            elif s["agg"] == "priority":
                out.append([next(l for l in s["order"] if r[l]) for r in v])
            else:
                out.append([{l for l in range(len(LM)) if r[l]} for r in v])
        elif k == "struct_regex":
            v = votes(s, t)
            avg = [sum(r[l] / sum(r) for r in v) for l in range(len(LM))]
            out.append({l for l in range(len(LM)) if avg[l] > max(avg) - 1e-9})
        elif k == "char":
            lab = [char_label(c) for c in t]
            if s["word"] is not None:
                out.append(Words(s, t, lab))
            else:
                out.append(spans(lab) if s["format"].lower() == "ner" else lab)
        elif k == "struct_char":
            lab = [char_label(c) for c in t]
            cnt = {l: lab.count(l) for l in set(lab)}
            top = {l for l in cnt if cnt[l] == max(cnt.values())}
            if len(top) > 1:
                top.discard(LM["UNKNOWN"])
            if s["names"]:
                out.append({n for n, l in LM.items() if l in top} or {None})
            else:
                out.append(top or {"nan"})
    return out


class Words:
    """Labels of a text by words: what the characters of every word must carry."""

    def __init__(self, s, t, lab):
        self.ner = s["format"].lower() == "ner"
        bg = LM["UNKNOWN"]
        self.want = [{l, bg} for l in lab]  # separators: their own label or the background
        words, i = [], 0
        for j in range(len(t) + 1):
            if j == len(t) or t[j] in SEPARATORS:
                words.append((i, j))
                i = j + 1
        for i, j in words:
            if i == j:
                continue
            cnt = {l: lab[i:j].count(l) for l in set(lab[i:j])}
            top = {l for l, c in cnt.items() if c == max(cnt.values()) and c > 1 and c / (j - i) >= s["word"]} or {bg}
            for k in range(i, j):
                self.want[k] = top
            if j == len(t):  # the end of a text is not a separator: the last character, or a text of one word, may keep its own labels
                for k in range(0 if i == 0 else j - 1, j):
                    self.want[k] = top | {lab[k], bg}

    def __str__(self):
        return f"characters {self.want}"

    def ok(self, got):
        if self.ner:
            lab = [LM["UNKNOWN"]] * len(self.want)
            for a, b, l in got:
                if not 0 <= a < b <= len(lab):
                    return False
                lab[a:b] = [LM[l]] * (b - a)
            if spans(lab) != got:
                return False
            got = lab
        return len(got) == len(self.want) and all(g in w for g, w in zip(got, self.want))


def matches(want, got):
    if isinstance(want, Words):
        return want.ok(got)
    if isinstance(want, set):
        return got in want
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(matches(a, b) for a, b in zip(want, got))
    if isinstance(want, float) or isinstance(got, float):
        return abs(want - got) < 1e-6
    return want == got


def check(s, texts, got, what):
    if s["kind"] == "column":
        return
    want = expect(s, texts)
    pred = got["pred"]
    if len(pred) != len(texts):
        raise Violation("label-count", f"{what}: {len(pred)} predictions for {len(texts)} texts")
    for i, (w, g) in enumerate(zip(want, pred)):
        if not matches(w, g):
            raise Violation("label-wrong", f"{what}: text {i} {texts[i]!r} is labelled {str(g)[:300]}, must be {str(w)[:300]}")


def check_conf(s, texts, got, what):
    """Confidences: the share of every label among a text's characters, or per character."""
    n = len(LM)
    conf = got["conf"]
    if len(conf) != len(texts):
        raise Violation("conf-count", f"{what}: {len(conf)} confidences for {len(texts)} texts")
    for t, c in zip(texts, conf):
        if s["kind"].endswith("regex"):
            rows = [[x / sum(r) for x in r] for r in votes(s, t)]
        else:
            rows = [[float(j == char_label(ch)) for j in range(n)] for ch in t]
        if s["kind"].startswith("struct"):
            want = [sum(r[j] for r in rows) / max(len(rows), 1) for j in range(n)]
        else:
            want = rows
        if not matches(want, c):
            raise Violation("conf-wrong", f"{what}: {t!r} has confidences {str(c)[:300]}, must be {str(want)[:300]}")
