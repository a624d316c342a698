"""Routes by which bytes reach a reader, each behind a seam."""
import io

from . import disk, files, net
from .core import Violation

OPTS = [None, None, "explicit", "explicit", "records", "select"]


class FaultyBuffer(io.BytesIO):
    """A caller's in-memory stream whose n-th read fails."""

    def __init__(self, data, env):
        super().__init__(data)
        self.env, self.n, self.fail = env, 0, set()

    def _t(self):
        i = self.n
        self.n += 1
        if i in self.fail:
            self.env.fault("buffer_read_eio")
            raise OSError(5, "injected I/O error")

    def read(self, *a):
        self._t()
        return super().read(*a)

    def read1(self, *a):
        self._t()
        return super().read1(*a)

    def readinto(self, *a):
        self._t()
        return super().readinto(*a)

    def readline(self, *a):
        self._t()
        return super().readline(*a)


class FakeS3:
    """The S3 service: returns the object as a real botocore StreamingBody over a scripted stream."""

    def __init__(self, env, body, fault=None, seg=4096):
        self.env, self.body, self.fault, self.seg = env, body, fault, seg

    def get_object(self, Bucket, Key):
        from botocore.response import StreamingBody

        env, body, fault = self.env, self.body, self.fault
        cut = len(body)
        if fault:
            cut = len(body) * fault[1] // 1000

        class Raw(io.RawIOBase):
            pos = 0

            def readable(self):
                return True

            def read(self, n=-1, **k):
                if fault and self.pos >= cut:
                    env.fault("s3_" + fault[0])
                    if fault[0] == "reset":
                        raise OSError(104, "injected: connection reset")
                    return b""
                m = cut - self.pos if n is None or n < 0 else min(n, cut - self.pos)
                if fault and fault[0] == "reset" and (n is None or n < 0):
                    env.fault("s3_reset")
                    raise OSError(104, "injected: connection reset")
                if fault and (n is None or n < 0):
                    env.fault("s3_eof")
                out = body[self.pos : self.pos + m]
                self.pos += len(out)
                return out

        return {"Body": StreamingBody(Raw(), len(body)), "ContentLength": len(body)}


def options(plan):
    d, o = plan["file"], plan.get("opt")
    r = {}
    if o == "explicit":
        if d["fmt"] in ("csv", "graph"):
            r = {"delimiter": d["delim"], "header": None if d.get("headless") else 0, "encoding": d["enc"]}
        elif d["fmt"] in ("jsonl", "jsonarr", "jsonobj", "text"):
            r = {"encoding": d["enc"]}
    if o == "select" and d["fmt"] in ("csv", "parquet", "avro", "jsonl", "jsonarr") and d["rows"] and not d.get("nested") and not d.get("lists"):
        if d["fmt"] == "csv":
            r = {"delimiter": d["delim"], "header": 0, "encoding": d["enc"]}
        r["selected_columns" if d["fmt"] in ("csv", "parquet") else "selected_keys"] = d["cols"][plan.get("sel", 0) % len(d["cols"]) :][:2]
    if o == "records" and d["fmt"] in ("csv", "parquet"):
        r = {"data_format": "records"}
    return r


def klass(env, plan):
    if plan.get("direct"):
        from dataprofiler.data_readers import avro_data, csv_data, graph_data, json_data, parquet_data, text_data

        return {"csv": csv_data.CSVData, "graph": graph_data.GraphData, "text": text_data.TextData, "parquet": parquet_data.ParquetData, "avro": avro_data.AVROData}.get(plan["file"]["fmt"], json_data.JSONData)
    return env.dp.Data


def make(env, plan, src, route=None):
    """A zero-argument reader constructor for this source."""
    K = klass(env, plan)
    opts = options(plan)

    def mk():
        if not opts:
            return K(src)
        o = dict(opts)
        before = dict(o)
        r = K(src, options=o)
        if o != before and K is env.dp.Data:
            raise Violation("options-changed", f"the caller's options {before} became {o}")
        return r

    return mk


def put_file(env, name, body):
    if env.disk is None:
        env.disk = disk.SimDisk(env, env.scratch + "/d", buf=env.plan.get("buf", 512))
    p = env.disk.path(name)
    from . import seams

    with seams.REAL_OPEN(p, "wb") as f:
        f.write(body)
    return p


def put_url(env, body, script, name="/f"):
    if env.net is None:
        env.net = net.SimNet(env)
    env.net.put(name, body, script)
    url = "http://files.example.org" + name
    for i in range(script.get("hops", 0)):
        env.net.put(name + "-r%d" % i, b"", {"to": name + ("-r%d" % (i - 1) if i else "")})
        url = "http://files.example.org" + name + "-r%d" % i
    return url


def script(rng, tiny=False):
    mode = rng.choice(["length", "chunked", "chunked", "close"])
    sizes = rng.choice([[1], [7], [100], [1000], [8191, 1], [8192], [8193], [3, 5000, 1]])
    return {"mode": mode, "gzip": rng.random() < 0.2, "seg": rng.choice([[1 << 16], [1000], [13, 1, 900], [4096]]), "chunk": sizes, "hops": rng.choice([0, 0, 0, 1, 2])}


def expected(d, text):
    """Reference content per class, from what was written."""
    rows, cols = d["rows"], d.get("cols")
    out = {"TextData": {"text": text}}
    cells = [[repr(str(v)) for v in r] for r in rows]
    f = d["fmt"]
    if f == "csv":
        out["CSVData"] = {"columns": [repr(c) for c in cols], "rows": cells}
    elif d.get("nested"):
        pass  # how nested records are flattened is not stated
    elif f == "graph":
        out["GraphData"] = graph(d)
    elif f in ("jsonl", "jsonarr", "avro") or (f == "jsonobj" and not d.get("meta")) or (f == "jsonobj" and d["payload"]):
        pre = "" if f != "jsonobj" or d.get("single") else (d["payload"] or "list") + "."
        names = [pre + c if pre else c for c in cols]
        out["AVROData" if f == "avro" else "JSONData"] = {"columns": [repr(c) for c in names], "rows": cells}
    elif f == "parquet" and not d.get("typed"):
        out["ParquetData"] = {"columns": [repr(c) for c in cols], "rows": cells}
    return out


def graph(d):
    """Nodes, and edges with what the last row of each says."""
    node = lambda v: int(v) if v.isdigit() else v
    edges = {}
    for r in d["rows"]:
        a, b = node(r[0]), node(r[1])
        edges[min(repr(a), repr(b)), max(repr(a), repr(b))] = {c: float(v) for c, v in zip(d["cols"][2:], r[2:])}
    return {"columns": sorted({repr(node(v)) for r in d["rows"] for v in r[:2]}), "edges": edges}


def check_content(d, text, got, route, sel=None):
    want = expected(d, text).get(got["class"])
    if sel and want and "columns" in want:
        keep = [i for i, c in enumerate(want["columns"]) if eval(c) in sel]
        want = {"columns": [want["columns"][i] for i in keep], "rows": [[r[i] for i in keep] for r in want["rows"]]}
    if want is None or not d["rows"]:
        return False
    if "text" in want:
        if want["text"] is None:
            return False
        s = "".join(eval(x) for x in got["rows"])
        if s != want["text"]:
            raise Violation("content-differs:text", f"{route}: {s!r:.300} is not the file's text {want['text']!r:.300}")
        return True
    if got["format"] == "records":
        return False
    if "edges" in want:
        have = {}
        for a, b, at in map(eval, got["rows"]):
            have[a, b] = {k: v for k, v in at if k in d["cols"][2:]}
        if got["columns"] != want["columns"] or have != want["edges"]:
            raise Violation("content-differs:GraphData", f"{route}: nodes {got['columns']!r:.300}, edges {have!r:.300}; the file has {want!r:.500}")
        return True
    df = files.differ(got, want, ["columns", "rows"])
    if df:
        raise Violation(f"content-differs:{got['class']}:{df[0]}", f"{route}: {df[1]} (read vs file)")
    return True
