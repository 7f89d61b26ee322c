"""C18: every log record arrives as the same record in OTLP form, and nothing in a log directory can stop the shipping of the rest."""
import calendar
import datetime
import json
import os

import harness as h
import shipper
from harness import Sub, eq, check

RULE = ("generated log records (any text, times, severities, attribute values, ids, several encodings of the same JSON) of several "
        "applications, mixed with damaged lines (blank, truncated, merged, wrong types, missing fields, not UTF-8) and unreadable entries "
        "(dangling links, directories, files that vanish), shipped by the real binary, also across a restart; oracle = the generated "
        "records; non-trivial = two or more files, or a damaged line or entry")
ASSUMPTIONS = ["a line is a well-formed record when it has the fields and types of OtlpLogRecord and UTC times, as the application writes them",
               "a damaged line may be delivered in any form or dropped", "integers fit 64 bits"]
SEV = [(5, "DEBUG"), (9, "INFO"), (13, "WARN"), (17, "ERROR"), (21, "FATAL"), (0, "UNSPECIFIED")]
BAD = ["blank", "spaces", "text", "half", "merged", "null", "list", "number", "string", "no-body", "no-time", "sev-text", "body-int", "body-null", "attr-null",
       "attr-list", "attr-text", "utf8", "surrogate", "trace-int", "time-int", "app-int", "app-null", "nul", "garbage", "empty-object", "deep"]


def strategy():
    from hypothesis import strategies as st
    text = st.one_of(st.sampled_from(["hello", "", "a\nb", "quote \" back \\ slash", "tab\t", "\u0000", "\u2028", "\U0001f600", "%s %d", "{}", "</script>", "\x7f"]),
                     st.text(st.characters(exclude_categories=["Cs"]), max_size=40), st.integers(0, 20000).map(lambda n: "x" * n))
    name = st.sampled_from(["my_app", "b", "x.y", "\u00e9t\u00e9", "with space", "q\"uote", ""])
    inst = st.sampled_from(["0", "10", "feeds_cats", ""])
    val = st.one_of(text, st.integers(-2**63, 2**63 - 1), st.integers(-5, 5), st.booleans(), st.none(), st.floats(allow_nan=False, allow_infinity=False, width=32),
                    st.lists(st.integers(0, 3), max_size=2), st.dictionaries(st.text("ab", max_size=2), st.integers(0, 2), max_size=2))
    attrs = st.dictionaries(st.one_of(st.sampled_from(["filename", "module", "funcName", "x.y", "", "\u00fc"]), st.text(st.characters(exclude_categories=["Cs"]), max_size=6)), val, max_size=4)
    micros = st.one_of(st.just(0), st.integers(0, 999999), st.sampled_from([1, 999999, 100000, 10, 4000]))
    secs = st.one_of(st.integers(0, 4102444800), st.sampled_from([0, 1709164800, 951782400, 1767225599, 2147483647, 2147483648, 4102444799]))
    hexid = lambda n: st.one_of(st.none(), st.text("0123456789abcdef", min_size=n, max_size=n), st.just("0" * n))
    rec = st.fixed_dictionaries({"secs": secs, "us": micros, "sev": st.integers(0, 5), "body": text, "attrs": attrs, "trace": hexid(32), "span": hexid(16),
                                 "enc": st.integers(0, 3)})
    line = st.one_of(st.tuples(st.just("rec"), rec), st.tuples(st.just("rec"), rec), st.tuples(st.just("rec"), rec), st.tuples(st.just("bad"), st.sampled_from(BAD)))
    file = st.fixed_dictionaries({"app": name, "inst": inst, "lines": st.lists(line, min_size=1, max_size=8)})
    entry = st.sampled_from(["link", "link-later", "dir", "vanish", "other"])
    return st.fixed_dictionaries({"files": st.lists(file, min_size=1, max_size=3), "entries": st.lists(entry, max_size=2, unique=True), "first": st.booleans(),
                                  "cut": st.integers(0, 8), "restart": st.booleans(), "fail": st.sampled_from([0, 0, 0, 1])})


def iso(secs, us):
    d = datetime.datetime.fromtimestamp(secs, tz=datetime.timezone.utc).replace(microsecond=us)
    return d.isoformat()


def encode(rec, how):
    if how == 0:
        return json.dumps(rec).encode()
    if how == 1:
        return json.dumps(rec, ensure_ascii=False, separators=(",", ":")).encode()
    if how == 2:
        return json.dumps(rec, sort_keys=True, separators=(" , ", " : ")).encode()
    return json.dumps({k: v for k, v in rec.items() if not (k in ("trace_id", "span_id") and v is None)}, ensure_ascii=False).encode()


def damaged(kind, app, inst):
    good = {"timestamp": iso(1700000000, 5), "severity_number": 9, "severity_text": "INFO", "body": "damaged", "attributes": {"application_name": app, "application_instance": inst},
            "trace_id": None, "span_id": None}
    g = lambda **kw: json.dumps({**good, **kw}).encode()
    w = lambda k: json.dumps({x: y for x, y in good.items() if x != k}).encode()
    full = json.dumps(good).encode()
    return {"blank": b"", "spaces": b"   ", "text": b"Traceback (most recent call last):", "half": full[:len(full) // 2], "merged": full[:40] + full, "null": b"null",
            "list": b"[]", "number": b"17", "string": b'"x"', "no-body": w("body"), "no-time": w("timestamp"), "sev-text": g(severity_number="nine"), "body-int": g(body=5),
            "body-null": g(body=None), "attr-null": g(attributes=None), "attr-list": g(attributes=[1, 2]), "attr-text": g(attributes="x"),
            "utf8": full[:-2] + b',"x":"\xff\xfe"}', "surrogate": b'{"body": "\\ud800", ' + full[1:], "trace-int": g(trace_id=5), "time-int": g(timestamp=1700000000),
            "app-int": g(attributes={"application_name": 5, "application_instance": 7}), "app-null": g(attributes={"application_name": None, "application_instance": None}),
            "nul": b"\x00\x00\x00", "garbage": b"\x80\x81{\xc3\x28", "empty-object": b"{}", "deep": b"[" * 300}[kind]


def same_value(v, got):
    if not isinstance(got, dict) or len(got) != 1:
        return v is None and got in (None, {})
    (t, x), = got.items()
    if isinstance(v, bool):
        return t == "boolValue" and x is v
    if isinstance(v, str):
        return t == "stringValue" and x == v
    if isinstance(v, int):
        return t == "intValue" and str(x) == str(v)
    if isinstance(v, float):
        try:
            return t in ("stringValue", "doubleValue", "intValue") and float(x) == v
        except (TypeError, ValueError):
            return False
    if t == "stringValue":
        try:
            return json.loads(x) == v
        except (TypeError, ValueError):
            return v is None
    return t in ("arrayValue", "kvlistValue")


def run(case):
    d = h.fresh_dir()
    sh = shipper.Shipper(d)
    classes = set()
    try:
        want, nbad, n = {}, 0, 0
        plan = []
        for fi, f in enumerate(case["files"]):
            path = os.path.join(sh.watch, f"f{fi}-0.log")
            lines = []
            for kind, x in f["lines"]:
                if kind == "rec":
                    a = {**x["attrs"], "application_name": f["app"], "application_instance": f["inst"], "lineno": n}
                    rec = {"timestamp": iso(x["secs"], x["us"]), "severity_number": SEV[x["sev"]][0], "severity_text": SEV[x["sev"]][1], "body": x["body"],
                           "attributes": a, "trace_id": x["trace"], "span_id": x["span"]}
                    want[n] = (fi, f, x, rec)
                    lines.append(encode(rec, x["enc"]))
                    n += 1
                else:
                    lines.append(damaged(x, f["app"], f["inst"]))
                    nbad += 1
                    classes.add("bad-" + x)
            plan.append((path, lines))
        later = None
        for e in case["entries"]:
            classes.add("entry-" + e)
            if e in ("link", "link-later"):
                os.symlink(os.path.join(d, e), os.path.join(sh.watch, f"0-{e}.log"))
            elif e == "dir":
                os.mkdir(os.path.join(sh.watch, "0-dir.log"))
            elif e == "other":
                with open(os.path.join(sh.watch, "app.txt"), "w") as f:
                    f.write("not a log\n")
            elif e == "vanish":
                pass

        def write(part):
            for path, lines in plan:
                cut = min(case["cut"], len(lines))
                chunk = lines[:cut] if part == 0 else lines[cut:]
                with open(path, "ab", buffering=0) as f:
                    f.write(b"".join(x + b"\n" for x in chunk))

        got, order, repeat = {}, [], set()
        seen = [0]
        extras = [0]

        def absorb():
            for epoch, payload in sh.ep.batches[seen[0]:]:
                for res, r in shipper.records(payload):
                    a = {}
                    for kv in r.get("attributes") or []:
                        a[kv.get("key")] = kv.get("value")
                    try:
                        i = int(str(a["lineno"]["intValue"]))
                    except (KeyError, TypeError, ValueError):
                        extras[0] += 1
                        continue
                    check(i in want, f"a record nobody logged was delivered: {json.dumps(r)[:200]}")
                    if i in repeat and i in got:
                        continue
                    check(i not in got, f"record {i} was delivered twice")
                    got[i] = (res, r, a)
                    order.append(i)
            seen[0] = len(sh.ep.batches)

        def due(upto):
            def cond():
                absorb()
                return all(i in got for i in upto)
            check(sh.wait(cond, lambda: f"delivery of records {sorted(i for i in upto if i not in got)[:5]} "
                          f"(damaged lines: {sorted(c for c in classes if c.startswith('bad-'))})"), "the shipper is down")

        def first_part():
            out = set()
            for i, (fi, f, x, rec) in want.items():
                pos = [k for k, (kind, y) in enumerate(f["lines"]) if kind == "rec"]
                mine = sorted(j for j in want if want[j][0] == fi)
                if pos[mine.index(i)] < case["cut"]:
                    out.add(i)
            return out

        if case["first"]:
            sh.start()
        with sh.ep.cond:
            sh.ep.script += [500] * case["fail"]
        if "vanish" in case["entries"]:
            p = os.path.join(sh.watch, "1-vanish.log")
            for _ in range(3):
                with open(p, "w"):
                    pass
                os.unlink(p)
        write(0)
        if not case["first"]:
            sh.start()
        due(first_part())
        if case["restart"]:
            # settle first: a record of another file goes through, twice
            for k in range(2):
                i = n
                n += 1
                rec = {"timestamp": iso(1700000000, k), "severity_number": 9, "severity_text": "INFO", "body": "settle", "attributes":
                       {"application_name": "zz", "application_instance": "0", "lineno": i}, "trace_id": None, "span_id": None}
                f = {"app": "zz", "inst": "0"}
                want[i] = (99, f, {"secs": 1700000000, "us": k, "sev": 1}, rec)
                with open(os.path.join(sh.watch, "zz-0.log"), "ab") as g:
                    g.write(encode(rec, 0) + b"\n")
                due({i})
            sh.kill()
            classes.add("restart")
        write(1)
        if case["restart"]:
            with sh.ep.cond:
                absorb()
            repeat.add(n - 1)          # a kill may repeat the batch that was accepted last
            sh.start()
        if "link-later" in case["entries"]:
            i = n
            n += 1
            rec = {"timestamp": iso(1700000000, 7), "severity_number": 9, "severity_text": "INFO", "body": "late", "attributes":
                   {"application_name": "late", "application_instance": "1", "lineno": i}, "trace_id": None, "span_id": None}
            want[i] = (98, {"app": "late", "inst": "1"}, {"secs": 1700000000, "us": 7, "sev": 1}, rec)
            due(set(want) & set(got) | {j for j in want if want[j][0] < 90})
            with open(os.path.join(d, "link-later.tmp"), "wb") as g:
                g.write(encode(rec, 0) + b"\n")
            os.rename(os.path.join(d, "link-later.tmp"), os.path.join(d, "link-later"))
        due(set(want))
        check(not sh.reap(), "the shipper is down")
        for i, (fi, f, x, rec) in want.items():
            res, r, a = got[i]
            what = f"record {rec['body'][:30]!r}"
            eq(res.get("service.name", {}).get("stringValue"), f["app"], f"{what}: service name")
            eq(res.get("service.instance.id", {}).get("stringValue"), f["inst"], f"{what}: service instance")
            eq(str(r.get("timeUnixNano")), str(x["secs"] * 10**9 + x["us"] * 1000), f"{what}: time (logged {rec['timestamp']})")
            eq(r.get("severityNumber"), rec["severity_number"], f"{what}: severity number")
            eq(r.get("severityText"), rec["severity_text"], f"{what}: severity text")
            eq(r.get("body"), {"stringValue": rec["body"]}, f"{what}: body")
            eq(r.get("traceId") or None, rec["trace_id"], f"{what}: trace id")
            eq(r.get("spanId") or None, rec["span_id"], f"{what}: span id")
            eq(set(a) | {k for k, v in rec["attributes"].items() if v is None}, set(rec["attributes"]), f"{what}: attribute names")
            for k, v in rec["attributes"].items():
                check(same_value(v, a.get(k)), lambda: f"{what}: attribute {k!r} is {a.get(k)}, logged {v!r}")
        for fi in range(len(case["files"])):
            mine = [i for i in order if i in want and want[i][0] == fi]
            eq(mine, sorted(mine), f"order of the records of file {fi}")
        check(extras[0] <= nbad * (2 if case["restart"] else 1), lambda: f"{extras[0]} records that nobody logged were delivered ({nbad} damaged lines)")
        return len(case["files"]) > 1 or nbad > 0 or bool(case["entries"]), sorted(classes)
    finally:
        sh.close()
        h.rmdir(d)


def subs():
    return [Sub("records", strategy, run, quick=220, thorough=3000, shards=7, setup=shipper.setup, case_limit_s=150)]
