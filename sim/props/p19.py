"""P19: what is read is what the file holds, by every route."""
import io

from .. import files, readers
from ..core import Violation, lib_frame

ID = "P19"
RUNS = {"quick": (700, 300), "thorough": (20000, 3000)}
RULE = (
    "one run = one file (CSV, JSON lines/array/object, Parquet, Avro, text, graph; several encodings, delimiters, line ends) read by every route: path, BytesIO (twice), StringIO, HTTP URL "
    "(content-length, chunked or close-delimited, any segment and chunk sizes, gzip, redirects), S3 stream, reload; all routes give the same class, settings and data, or the same refusal, and the content equals the rows written; "
    "the caller's buffers and options are left usable; non-trivial = at least three routes gave data"
)
STATES = "(format, encoding, class, transfer mode)"
REAL = ["Data factory, all reader classes, encoding detection, url_to_bytes, S3Helper.get_s3_uri, requests / urllib3 / http.client, pandas, pyarrow, fastavro"]
STUB = ["TCP sockets (SimNet)", "S3 service (scripted stream behind a real StreamingBody)", "disk (SimDisk over a scratch directory)", "wall clock"]
SHRINK = [["file", "rows"], ["routes"], ["clock"]]


BINARY = ("ParquetData", "AVROData")  # recognised by their magic bytes


def plan(rng, tier):
    p = {"file": files.draw(rng, max_rows=rng.choice([12, 60, 60, 300]), newlines=rng.random() < 0.2), "opt": rng.choice(readers.OPTS), "sel": rng.randint(0, 5), "direct": rng.random() < 0.25, "buf": rng.choice([64, 512, 8192])}
    p["routes"] = ["bytes", "bytes_again", "string", "reload", "s3"]
    for _ in range(rng.choice([1, 2])):
        p["routes"].append(["url", readers.script(rng)])
    f = p["file"]
    if f["fmt"] == "csv" and rng.random() < 0.2:  # no header line, and the reader is told so
        f["headless"], p["opt"] = True, "explicit"
    elif f["fmt"] == "csv" and rng.random() < 0.12:  # one column, whose empty values are empty lines
        f.update(cols=["only"], rows=[[rng.choice(r)] for r in f["rows"]], delim=",", last_nl=True)
        p["direct"] = True
        p["opt"] = "explicit"
    if rng.random() < 0.6:
        files.enrich(rng, f)
    rng.shuffle(p["routes"])
    p["routes"].sort(key=lambda r: r == "bytes_again")
    return p


def outcome(env, mk, enc=True):
    env.reset_random(1)
    try:
        return files.outcome(mk, enc)
    except Violation:
        raise
    except Exception as e:
        return {"class": "refused:" + type(e).__name__, "_why": f"{e!r:.200} at {lib_frame(e)}"}


def run(plan, env):
    d = plan["file"]
    body, text = files.render(d)
    if d.get("headless"):
        text = text[text.index("\n") + 1 :] if "\n" in text else ""
        body = text.replace("\n", d["nl"]).encode(d["enc"])
        d["cols"] = list(range(len(d["cols"])))
    if d.get("pad") and text is not None:
        row = d["delim"].join("x" for _ in d["cols"])
        k = d["pad"] // (len(row) + 1)
        extra = "".join(row + "\n" for _ in range(k))
        text = (text if text.endswith("\n") else text + "\n") + extra
        d["enc"], d["rows"] = "utf-8", d["rows"] + [["x"] * len(d["cols"])] * k
        body = text.encode()
    path = readers.put_file(env, "f", body)
    base = outcome(env, readers.make(env, plan, path))
    env.log("path", base["class"], len(base.get("rows", [])))
    ok = not base["class"].startswith("refused")
    n = int(ok)
    if ok and not plan.get("direct"):
        kind = {"parquet": "ParquetData", "avro": "AVROData", "jsonl": "JSONData", "jsonarr": "JSONData", "jsonobj": "JSONData"}.get(d["fmt"])
        if kind != base["class"] and (kind in BINARY or base["class"] in BINARY):
            raise Violation("wrong-kind", f"a {d['fmt']} file of {len(body)} bytes was read as {base['class']}")
        if kind and d["rows"] and kind != base["class"]:
            raise Violation("wrong-kind", f"a {d['fmt']} file of {len(body)} bytes was read as {base['class']}: {body[:300]!r}")
    opts = readers.options(plan)
    sel = opts.get("selected_columns") or opts.get("selected_keys")
    explicit = "encoding" in opts or (d["enc"] == "utf-8" and body.isascii()) or d["fmt"] in ("parquet", "avro")
    clean = d["fmt"] not in ("csv", "graph") or "delimiter" in opts
    if ok and explicit and clean and readers.check_content(d, text, base, "path", sel):
        env.probe("content_checked")
    buf = None
    for r in plan["routes"]:
        enc = True
        if r == "bytes":
            src = buf = io.BytesIO(body)
        elif r == "bytes_again":
            if buf is None:
                continue
            src = buf
        elif r == "string":
            if text is None or not ok or d["enc"] == "utf-8-sig":
                continue
            try:  # the decoded text is the same input only where the encoding was recognised
                if body.decode(base.get("encoding") or "utf-8").replace("\r\n", "\n") != text:
                    continue
            except UnicodeError:
                continue
            src, enc = io.StringIO(text), False
        elif r == "s3":
            if plan.get("direct"):
                continue
            import boto3

            real = boto3.client
            boto3.client = lambda *a, **k: readers.FakeS3(env, body)
            src = "s3://bucket/dir/file"
        elif r == "reload":
            src = None
        elif r[0] == "url":
            if plan.get("direct"):
                continue
            src = readers.put_url(env, body, r[1])
        name = r if isinstance(r, str) else f"{r[0]} {r[1]['mode']}"
        if src is None:
            if not ok or plan.get("direct"):
                continue

            def mk():
                o = readers.make(env, plan, path)()
                o.data
                o.reload(path, None, readers.options(plan))
                return o

        else:
            mk = readers.make(env, plan, src)
        try:
            got = outcome(env, mk, enc)
        finally:
            if r == "s3":
                boto3.client = real
        n += not got["class"].startswith("refused")
        env.log(name, got["class"], len(got.get("rows", [])))
        keys = [k for k in sorted(set(base) | set(got)) if not k.startswith("_") and (enc or k != "encoding")]
        df = files.differ(got, base, keys)
        if df:
            raise Violation(f"routes-differ:{name.split()[0]}:{df[0]}", f"{d['fmt']} {d['enc']} {name} against path: {df[0]} {df[1]} {got.get('_why', '')} {base.get('_why', '')}")
        if isinstance(src, (io.BytesIO, io.StringIO)):
            if src.closed:
                raise Violation("buffer-closed", f"{name}: the caller's buffer was closed")
            whole = src.getvalue()
            if whole != (body if isinstance(src, io.BytesIO) else text):
                raise Violation("buffer-changed", name)
        env.state_keys.add(f"{d['fmt']}/{d['enc']}/{base['class']}/{name}")
    env.n_ok = n


def nontrivial(plan, env):
    return getattr(env, "n_ok", 0) >= 3
