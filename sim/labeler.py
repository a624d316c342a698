"""A small deterministic data labeler built from the library's own parts (no neural network)."""
import re

LABELS = {"UNKNOWN": 0, "DIG": 1, "AB": 2, "WORD": 3}
PATTERNS = {"DIG": r"[-+]?\d+(?:\.\d+)?", "AB": r"[a-cx-z]+", "WORD": r"[d-w]+"}


def make(dp):
    from dataprofiler.labelers import data_processing as dpr
    from dataprofiler.labelers import regex_model
    from dataprofiler.labelers.base_data_labeler import BaseDataLabeler

    m = regex_model.RegexModel(
        label_mapping=dict(LABELS),
        parameters={
            "regex_patterns": {k: [v] for k, v in PATTERNS.items()},
            "default_label": "UNKNOWN",
            "ignore_case": False,
            "encapsulators": {"start": r"^", "end": r"$"},
        },
    )
    return BaseDataLabeler.load_with_components(dpr.DirectPassPreprocessor(), m, dpr.StructRegexPostProcessor(random_state=None))


def label(s):
    for k, v in PATTERNS.items():
        if re.match(f"^(?:{v})$", s):
            return k
    return "UNKNOWN"


def make_text(dp):
    """A character-level labeler for free text, again without a neural network."""
    from dataprofiler.labelers import data_processing as dpr
    from dataprofiler.labelers import regex_model
    from dataprofiler.labelers.base_data_labeler import BaseDataLabeler

    m = regex_model.RegexModel(
        label_mapping={"PAD": 0, "UNKNOWN": 1, "DIG": 2, "AB": 3, "WORD": 4},
        parameters={
            "regex_patterns": {k: [v] for k, v in PATTERNS.items()},
            "default_label": "UNKNOWN",
            "ignore_case": True,
            "encapsulators": {"start": r"(?<![\w.\$\%\-])", "end": r"(?:(?=(\b|[ ])))"},
        },
    )
    return BaseDataLabeler.load_with_components(dpr.DirectPassPreprocessor(), m, dpr.RegexPostProcessor(aggregation_func="priority", priority_order=[0, 1, 2, 3, 4]))
