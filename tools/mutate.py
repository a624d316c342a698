#!/usr/bin/env python3
"""Mutation sweep of the checks (not a registered check).

mutate.py REPO_COPY VERIF_COPY OUT MODULE SEED N   - plants N random small changes in MODULE of
REPO_COPY, keeps those that the module's own tests do not notice, and runs the checks that claim the module on them.
"""
import ast, json, os, random, subprocess, sys, time

PR = "dataprofiler/profilers/"
DR = "dataprofiler/data_readers/"
LB = "dataprofiler/labelers/"
NUM = ["P01", "P02", "P04", "P08", "P10", "P12"]
MAP = {
    PR + "numerical_column_stats.py": (["P01", "P02", "P04", "P10", "P12", "P08", "P09", "P11"], ["profilers/test_numeric_stats_mixin_profile.py", "profilers/test_int_column_profile.py", "profilers/test_float_column_profile.py", "profilers/test_text_column_profile.py"]),
    PR + "int_column_profile.py": (["P01", "P02", "P10", "P12", "P08"], ["profilers/test_int_column_profile.py"]),
    PR + "float_column_profile.py": (["P01", "P02", "P10", "P12", "P08"], ["profilers/test_float_column_profile.py"]),
    PR + "text_column_profile.py": (["P01", "P02", "P10", "P12", "P08"], ["profilers/test_text_column_profile.py"]),
    PR + "datetime_column_profile.py": (["P01", "P02", "P10", "P12", "P08"], ["profilers/test_datetime_column_profile.py"]),
    PR + "order_column_profile.py": (["P01", "P02", "P10", "P12", "P08"], ["profilers/test_order_column_profile.py"]),
    PR + "base_column_profilers.py": (["P01", "P02", "P10", "P12", "P08", "P09"], ["profilers/test_base_column_profilers.py"]),
    PR + "categorical_column_profile.py": (["P05", "P02", "P10", "P12", "P08", "P06", "P09"], ["profilers/test_categorical_column_profile.py"]),
    PR + "column_profile_compilers.py": (["P01", "P02", "P09", "P10", "P12", "P15", "P08", "P23"], ["profilers/test_column_profile_compilers.py", "profilers/test_profile_builder.py"]),
    PR + "data_labeler_column_profile.py": (["P23", "P27", "P10", "P12", "P08"], ["profilers/test_data_labeler_column_profile.py"]),
    PR + "histogram_utils.py": (["P04", "P01"], ["profilers/test_histogram_utils.py", "profilers/test_numeric_stats_mixin_profile.py"]),
    PR + "profile_builder.py": (["P03", "P06", "P02", "P09", "P18", "P13", "P11", "P12", "P24", "P15", "P08", "P07", "P10", "P14", "P17", "P01", "P16", "P23"], ["profilers/test_profile_builder.py"]),
    PR + "profiler_utils.py": (["P10", "P18", "P15", "P27", "P03", "P24", "P01", "P17"], ["profilers/test_profiler_utils.py", "profilers/test_profile_builder.py"]),
    PR + "json_decoder.py": (["P12", "P14"], ["profilers"]),
    PR + "json_encoder.py": (["P12"], ["profilers"]),
    PR + "profiler_options.py": (["P12", "P09", "P08", "P16", "P17"], ["profilers/test_profile_builder.py"]),
    PR + "unstructured_labeler_profile.py": (["P24"], ["profilers/test_unstructured_labeler_profile.py"]),
    PR + "unstructured_text_profile.py": (["P24"], ["profilers/test_unstructured_text_profile.py"]),
    PR + "graph_profiler.py": (["P26"], ["profilers/test_graph_profiler.py"]),
    PR + "helpers/report_helpers.py": (["P08", "P10", "P01"], ["profilers/helpers"]),
    DR + "avro_data.py": (["P19", "P20", "P21", "P28"], ["data_readers/test_avro_data.py"]),
    DR + "base_data.py": (["P19", "P20", "P21", "P28"], ["data_readers/test_data.py", "data_readers/test_csv_data.py"]),
    DR + "csv_data.py": (["P19", "P20", "P21", "P28"], ["data_readers/test_csv_data.py"]),
    DR + "data.py": (["P19", "P20"], ["data_readers/test_data.py"]),
    DR + "data_utils.py": (["P19", "P20", "P21", "P17"], ["data_readers/test_data_utils.py", "data_readers/test_csv_data.py", "data_readers/test_json_data.py", "data_readers/test_parquet_data.py"]),
    DR + "filepath_or_buffer.py": (["P19", "P20"], ["data_readers/test_filepath_or_buffer.py"]),
    DR + "graph_data.py": (["P19", "P20", "P26", "P28"], ["data_readers/test_csv_graph_data.py"]),
    DR + "json_data.py": (["P19", "P20", "P21", "P28"], ["data_readers/test_json_data.py"]),
    DR + "parquet_data.py": (["P19", "P20", "P21", "P17", "P28"], ["data_readers/test_parquet_data.py"]),
    DR + "structured_mixins.py": (["P21", "P28"], ["data_readers/test_csv_data.py"]),
    DR + "text_data.py": (["P19", "P20", "P21", "P28"], ["data_readers/test_text_data.py"]),
    LB + "base_data_labeler.py": (["P22", "P25"], ["labelers/test_data_labelers.py", "labelers/test_integration_regex_data_labeler.py"]),
    LB + "base_model.py": (["P22", "P25"], ["labelers/test_base_model.py"]),
    LB + "column_name_model.py": (["P22", "P25"], ["labelers/test_column_name_model.py"]),
    LB + "data_processing.py": (["P25", "P22", "P24"], ["labelers/test_data_processing.py"]),
    LB + "regex_model.py": (["P25", "P22"], ["labelers/test_regex_model.py"]),
    LB + "data_labelers.py": (["P22", "P25"], ["labelers/test_data_labelers.py"]),
    "dataprofiler/validators/base_validators.py": (["P29"], ["validators"]),
    "dataprofiler/dp_logging.py": (["P16"], ["test_dp_logging.py"]),
    "dataprofiler/rng_utils.py": (["P17"], ["test_rng_utils.py"]),
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def sites(tree):
    """(description, apply) for every change we know."""
    out = []
    for n in ast.walk(tree):  # type annotations do nothing
        if isinstance(n, ast.AnnAssign) and n.value is not None:
            n.annotation = ast.Name("object", ast.Load())
        elif isinstance(n, ast.arg) and n.annotation:
            n.annotation = None
        elif isinstance(n, ast.FunctionDef):
            n.returns = None
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for parent in ast.walk(fn):
            for field, val in ast.iter_fields(parent):
                if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                    for k, st in enumerate(val):
                        if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                            out.append((st.lineno, "drop", lambda v=val, k=k: v.__setitem__(k, ast.Pass())))
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare):
                for k, o in enumerate(n.ops):
                    if type(o) in CMP:
                        out.append((n.lineno, "cmp", lambda n=n, k=k, o=o: n.ops.__setitem__(k, CMP[type(o)]())))
            elif isinstance(n, ast.BoolOp):
                out.append((n.lineno, "bool", lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
                out.append((n.lineno, "bool-first", lambda n=n: n.values.__delitem__(-1) if len(n.values) > 2 else setattr(n, "values", [n.values[0], n.values[0]])))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                out.append((n.lineno, "bin", lambda n=n: setattr(n, "op", BIN[type(n.op)]())))
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                out.append((n.lineno, "aug", lambda n=n: setattr(n, "op", BIN[type(n.op)]())))
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                out.append((n.lineno, "const", lambda n=n: setattr(n, "value", n.value + 1)))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((n.lineno, "flag", lambda n=n: setattr(n, "value", not n.value)))
            elif isinstance(n, (ast.If, ast.IfExp)):
                out.append((n.lineno, "if-true", lambda n=n: setattr(n, "test", ast.Constant(True))))
                out.append((n.lineno, "if-false", lambda n=n: setattr(n, "test", ast.Constant(False))))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append((n.lineno, "not", lambda n=n: (setattr(n, "op", ast.UAdd()), setattr(n, "operand", ast.Call(ast.Name("bool", ast.Load()), [n.operand], [])))))
            elif isinstance(n, ast.Call):
                f = n.func
                name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if name in ("copy", "deepcopy", "sorted", "set", "list", "dict", "reversed"):
                    if n.args:
                        out.append((n.lineno, "nocall-" + name, lambda n=n: (setattr(n, "func", ast.Lambda(ast.arguments([], [ast.arg("x")], ast.arg("a"), [], [], ast.arg("k"), []), ast.Name("x", ast.Load()))))))
                    elif isinstance(f, ast.Attribute):
                        out.append((n.lineno, "nocall-" + name, lambda n=n, f=f: (setattr(n, "func", ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []), ast.Name("x", ast.Load()))), setattr(n, "args", [f.value]), setattr(n, "keywords", []))))
                if name in ("min", "max", "any", "all") and isinstance(f, ast.Name):
                    other = {"min": "max", "max": "min", "any": "all", "all": "any"}[name]
                    out.append((n.lineno, name, lambda f=f, other=other: setattr(f, "id", other)))
                if len(n.args) == 2:
                    out.append((n.lineno, "swap-args", lambda n=n: n.args.reverse()))
                if n.keywords and n.keywords[0].arg:
                    out.append((n.lineno, "drop-kw", lambda n=n: n.keywords.pop()))
    return out


def main():
    repo, verif, outp, module, seed, n = *sys.argv[1:5], int(sys.argv[5]), int(sys.argv[6])
    checks, tests = MAP[module]
    path = os.path.join(repo, module)
    src = open(path).read()
    lines = src.split("\n")
    rng = random.Random(f"{module}{seed}")
    total = len(sites(ast.parse(src)))
    tree = ast.parse(src)
    sites(tree)
    base = ast.unparse(tree)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="")
    args = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", *[f"dataprofiler/tests/{t}" for t in tests]]
    r = subprocess.run(args + ["-rfE"], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for l in r.stdout.split("\n"):
        if l.startswith(("FAILED ", "ERROR ")):
            args += ["--deselect", l.split(" ")[1]]
    for idx in rng.sample(range(total), min(n, total)):
        tree = ast.parse(src)
        line, kind, apply = sites(tree)[idx]
        apply()
        try:
            new = ast.unparse(ast.fix_missing_locations(tree))
            compile(new, path, "exec")
        except Exception:
            continue
        if new == base or "logger" in lines[line - 1] or "warn" in lines[line - 1] or "raise" in lines[line - 1]:
            continue
        rec = dict(module=module, idx=idx, line=line, kind=kind, text=lines[line - 1].strip())
        try:
            with open(path, "w") as f:
                f.write(new)
            try:
                r = subprocess.run(args + ["-x"], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                killed = r.returncode != 0
            except subprocess.TimeoutExpired:
                killed = True
            if killed:
                rec["res"] = "tests"
            else:
                rec["res"] = "SURVIVED"
                for c in checks:
                    t0 = time.time()
                    try:
                        r = subprocess.run(["/opt/venv/bin/python", "check.py", c], cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    except subprocess.TimeoutExpired:
                        rec["res"] = c + ":timeout"
                        break
                    if r.returncode:
                        v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "violation" in l]
                        rec["res"] = f"{c}:{r.returncode}"
                        rec["why"] = (v or r.stdout.split("\n")[-3:])[0][:200]
                        break
        finally:
            with open(path, "w") as f:
                f.write(src)
        with open(outp, "a") as f:
            f.write(json.dumps(rec) + "\n")


main()
