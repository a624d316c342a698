"""Files the readers meet: drawn as plan data, rendered to bytes, with the rows they hold as reference."""
import io
import json

WORDS = ["alpha", "beta", "gamma", "delta", "oak", "pine", "elm", "red fox", "blue", "Zug", "x1", "north", "a b c", "NA", "null", "None", "nan", "007", "1e5", "true"]
UNI = ["naïve", "café", "Größe", "日本語", "ñandú", "Ωmega", "Łódź"]
LAT = ["naïve", "café", "Größe", "ñandú", "façade"]
ENCS = {"utf-8": UNI, "utf-16": UNI, "utf-8-sig": UNI, "latin-1": LAT}


def cell(rng, kind, words):
    if kind == "int":
        return str(rng.randint(-999, 99999))
    if kind == "float":
        return "%.3f" % rng.uniform(-50, 50)
    if kind == "date":
        return "20%02d-%02d-%02d" % (rng.randint(0, 30), rng.randint(1, 12), rng.randint(1, 28))
    if kind == "empty":
        return "" if rng.random() < 0.4 else rng.choice(words)
    return rng.choice(words)


def draw(rng, fmt=None, max_rows=60, quoted=True, newlines=False):
    """A JSON-able description of one file.  Row 0.. carry a unique first cell."""
    fmt = fmt or rng.choice(["csv", "csv", "csv", "jsonl", "jsonarr", "jsonobj", "parquet", "avro", "text", "graph"])
    enc = "utf-8"
    if fmt in ("csv", "jsonl", "jsonarr", "jsonobj", "text"):
        enc = rng.choice(["utf-8", "utf-8", "utf-8", "utf-16", "utf-8-sig" if fmt == "text" else "utf-8", "latin-1" if fmt in ("csv", "text") else "utf-8"])
    uni = rng.random() < 0.5 or enc == "latin-1"
    words = WORDS + (ENCS[enc] * 2 if uni else [])
    n = rng.choice([0, 1, 4, 6, 9, 20, 33, max_rows]) if rng.random() < 0.3 else rng.randint(5, max_rows)
    ncol = rng.randint(2, 6)
    kinds = ["id"] + [rng.choice(["int", "float", "word", "word", "date", "empty"]) for _ in range(ncol - 1)]
    rows = []
    if fmt == "text":
        rows = [" ".join(rng.choice(words + ["the", "of", "and", "is."]) for _ in range(rng.randint(0, 14))) for _ in range(n)]
        return {"fmt": fmt, "enc": enc, "nl": rng.choice(["\n", "\n", "\r\n"]), "rows": rows, "last_nl": rng.random() < 0.7}
    if fmt == "graph":
        rows = [[str(rng.randint(0, 30)), str(rng.randint(0, 30)), "%d" % rng.randint(0, 9), "%.1f" % rng.uniform(0, 9)] for _ in range(max(n, 5))]
        return {"fmt": fmt, "enc": "utf-8", "nl": "\n", "delim": rng.choice([",", ",", "\t"]), "cols": ["node_id_source", "node_id_dst", "open_date_src", "weight"], "rows": rows, "last_nl": True}
    tag = rng.choice(["r%d", "%d", "id-%04d"])
    for i in range(n):
        r = [tag % i]
        for k in kinds[1:]:
            v = cell(rng, k, words)
            if quoted and fmt == "csv" and k == "word" and rng.random() < 0.1:
                v = rng.choice(['say "%s"', "%s, etc", "%s; %s|x", "it's %s"]).replace("%s", v)
            if newlines and fmt == "csv" and k == "word" and rng.random() < 0.15:
                v = v + "\n" + rng.choice(WORDS)
            r.append(v)
        rows.append(r)
    d = {"fmt": fmt, "enc": enc, "cols": ["id"] + ["%s_%d" % (rng.choice(["amount", "name", "city", "when"]), i) for i in range(1, ncol)], "rows": rows, "last_nl": rng.random() < 0.8}
    if fmt == "csv":
        d.update(nl=rng.choice(["\n", "\n", "\n", "\r\n"]), delim=rng.choice([",", ",", ",", ";", "|", "\t"]), quote_all=rng.random() < 0.15)
    if fmt == "jsonobj":
        d["payload"] = rng.choice(["data", "payload", None])
        d["meta"] = rng.random() < 0.5
    if fmt == "parquet":
        d["groups"] = rng.choice([1, 2, 3])
        d["typed"] = rng.random() < 0.5
    if fmt == "avro":
        d["codec"] = rng.choice(["null", "deflate"])
    if fmt == "jsonl":
        d["nl"] = "\n"
        d["nested"] = rng.random() < 0.2
    return d


def enrich(rng, d, single=False):
    """What else files hold: repeated rows, empty columns, nulls, numbers, blank lines, rows written as lists, single records."""
    f, rows = d["fmt"], d["rows"]
    if f == "text" or not rows:
        return d
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 4)):
            rows.insert(rng.randrange(len(rows) + 1), list(rng.choice(rows)))
    if f == "graph":
        if rng.random() < 0.3:  # few nodes: many rows for one edge
            for r in rows:
                r[0], r[1] = str(int(r[0]) % 4), str(int(r[1]) % 3)
        return d
    if f == "parquet":
        d["cuts"] = sorted(rng.randrange(len(rows) + 1) for _ in range(rng.choice([0, 1, 2, 4])))
    if rng.random() < 0.15 and not d.get("headless") and len(d["cols"]) > 1:
        k = rng.randrange(1, len(d["cols"]))
        if rng.random() < 0.5:  # two columns, the last one empty
            d["cols"], k = [d["cols"][0], d["cols"][k]], 1
            rows[:] = [[r[0], ""] for r in rows]
        else:
            for r in rows:
                r[k] = ""
    if f in ("jsonl", "jsonarr", "jsonobj", "avro"):
        if rng.random() < 0.3:  # nulls
            for _ in range(rng.randint(1, 6)):
                r = rng.choice(rows)
                for k in range(len(r)) if rng.random() < 0.3 else [rng.randrange(len(r))]:
                    r[k] = None
        elif f != "avro" and rng.random() < 0.3:  # numbers
            for k in range(1, len(d["cols"])):
                if all(r[k] and r[k].lstrip("-").isdigit() and str(int(r[k])) == r[k] for r in rows):
                    for r in rows:
                        r[k] = int(r[k])
    if f in ("jsonl", "jsonarr") and not d.get("nested") and len(rows) > 1 and rng.random() < 0.15:
        d["lists"] = True
        d["cols"] = list(range(len(d["cols"])))
    if f == "jsonl" and rng.random() < 0.25:
        d["blank"] = sorted({rng.randrange(len(rows)) for _ in range(rng.randint(1, 2))})
    if f == "jsonobj" and (single or rng.random() < 0.3):
        d["single"], d["payload"], d["meta"] = True, None, False
        w = rng.choice([1, 1, 2, 6])
        d["cols"], rows[:] = d["cols"][:w], [rows[0][:w]]
    return d


def quote(v, d):
    if d.get("quote_all") or any(c in v for c in (d["delim"], '"', "\n", "\r")):
        return '"' + v.replace('"', '""') + '"'
    return v


def objs(d):
    out = []
    for r in d["rows"]:
        if d.get("lists"):
            out.append(list(r))
            continue
        o = dict(zip(d["cols"], r))
        if d.get("nested"):
            o = {"id": o.pop("id"), "in": o}
        out.append(o)
    return out


def render(d):
    """(bytes, text or None)"""
    f = d["fmt"]
    if f in ("csv", "graph"):
        lines = [d["delim"].join(quote(v, d) for v in r) for r in [d["cols"]] + d["rows"]]
        s = d["nl"].join(lines) + (d["nl"] if d.get("last_nl") else "")
    elif f == "text":
        s = d["nl"].join(d["rows"]) + (d["nl"] if d["last_nl"] and d["rows"] else "")
    elif f == "jsonl":
        s = "\n".join(("\n" if i in d.get("blank", []) else "") + json.dumps(o, ensure_ascii=False) for i, o in enumerate(objs(d))) + ("\n" if d["last_nl"] else "")
    elif f == "jsonarr":
        s = json.dumps(objs(d), ensure_ascii=False, indent=2 if d["last_nl"] else None)
    elif f == "jsonobj":
        o = {}
        if d.get("meta"):
            o["version"] = 3
        if d.get("single"):
            o = objs(d)[0] if d["rows"] else {}
        else:
            o[d["payload"] or "list"] = objs(d)
        s = json.dumps(o, ensure_ascii=False)
    elif f == "parquet":
        import pandas as pd
        import pyarrow as pa
        import pyarrow.parquet as pq

        df = pd.DataFrame({c: [r[i] for r in d["rows"]] for i, c in enumerate(d["cols"])}, dtype=object)
        if d.get("typed") and len(df):
            for c in d["cols"][1:]:
                try:
                    df[c] = pd.to_numeric(df[c])
                except (ValueError, TypeError):
                    pass
        b = io.BytesIO()
        t = pa.Table.from_pandas(df, preserve_index=False)
        if d.get("cuts"):  # row groups of any size
            with pq.ParquetWriter(b, t.schema) as w:
                cuts = [0] + [min(c, len(df)) for c in d["cuts"]] + [len(df)]
                for i, j in zip(cuts, cuts[1:]):
                    w.write_table(t.slice(i, j - i))
        else:
            pq.write_table(t, b, row_group_size=max(1, len(df) // d["groups"]))
        return b.getvalue(), None
    elif f == "avro":
        import fastavro

        sch = fastavro.parse_schema({"name": "row", "type": "record", "fields": [{"name": c, "type": ["string", "null"]} for c in d["cols"]]})
        b = io.BytesIO()
        fastavro.writer(b, sch, objs(d), codec=d["codec"], sync_interval=300, sync_marker=b"0123456789abcdef")
        return b.getvalue(), None
    text = s.replace("\r\n", "\n")
    return s.encode(d["enc"]), text


def outcome(mk, enc=True):
    """What a user sees of a reader: class, settings and all the data; or the kind of the refusal."""
    import networkx as nx
    import pandas as pd

    o = mk()
    data = o.data
    out = {"class": type(o).__name__, "format": o.data_format}
    if isinstance(data, pd.DataFrame):
        out["columns"] = [repr(c) for c in data.columns]
        out["rows"] = [[repr(v) for v in r] for r in data.values.tolist()]
    elif isinstance(data, nx.Graph):
        out["rows"] = sorted(repr((min(repr(a), repr(b)), max(repr(a), repr(b)), sorted(at.items()))) for a, b, at in data.edges(data=True))
        out["columns"] = sorted(repr(x) for x in data.nodes)
    else:
        out["rows"] = [repr(v) for v in data]
    for a in ("delimiter", "quotechar", "header"):
        if out["class"] == "CSVData":
            out[a] = repr(getattr(o, a))
    if enc and out["class"] in ("CSVData", "JSONData", "TextData", "GraphData"):
        out["encoding"] = o.file_encoding
    out["len"] = len(o) if not isinstance(data, nx.Graph) else data.number_of_edges()
    return out


def differ(a, b, keys=None):
    for k in keys or sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x != y:
            if isinstance(x, list) and isinstance(y, list):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        return k, f"#{i}: {p!r:.300} vs {q!r:.300}"
                return k, f"{len(x)} vs {len(y)} entries"
            return k, f"{x!r:.300} vs {y!r:.300}"
    return None
