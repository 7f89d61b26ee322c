"""C10: a request reaches exactly the endpoint it names, through the whole middleware chain, with its own data."""
import asyncio
import json

import harness as h
import vloop
import eko
from harness import Sub, eq, check

RULE = ("generated route tables (look-alike, prefix, unicode names; four parameter shapes; plain and buffered), middleware "
        "chains that rewrite requests/responses, suspend or raise, and overlapping requests on several connections to a "
        "real server; oracle = the trail written by each stage, computed independently from the table and chain; "
        "non-trivial = at least one middleware and overlapping requests, or a look-alike route pair")
ASSUMPTIONS = ["middlewares do not change the route key or span key"]


def strategy():
    from hypothesis import strategies as st
    name = st.sampled_from(["a", "a.b", "a.b.c", "A.b", "a.B", "a b", "a.", ".a", "\u00e9.x", "e\u0301.x", "", "0", "a.b ", "aa"])
    route = st.fixed_dictionaries({"name": name, "shape": st.sampled_from(["dto", "span", "both", "none", "kwargs", "opt", "null"]),
                                   "yield": st.sampled_from([0, -1, -3, 0.5, 2.0]), "buffered": st.sampled_from([False, False, False, True])})
    mw = st.fixed_dictionaries({"before": st.sampled_from(["pass", "tag", "tag", "replace", "slow"]),
                                "after": st.sampled_from(["pass", "tag", "tag", "replace", "slow", "drop"]),
                                "has": st.integers(0, 4)})
    req = st.fixed_dictionaries({"route": st.integers(0, 8), "conn": st.integers(0, 3), "n": st.integers(-3, 3),
                                 "bad": st.sampled_from([None, None, None, None, None, "type", "missing", "route", "raise",
                                                         "mw_before", "mw_after", "notdict"]),
                                 "near": st.integers(0, 6), "junk": st.sampled_from([None, [], "", 0, False, "x", [1]])})
    return st.fixed_dictionaries({"routes": st.lists(route, min_size=1, max_size=6, unique_by=lambda r: r["name"]),
                                  "dup": st.booleans(),
                                  "mws": st.lists(mw, max_size=3), "reqs": st.lists(req, min_size=1, max_size=10)})


async def body(case, classes):
    from pydantic import BaseModel
    from ekosis.requests.endpoint import endpoint
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.middleware.manager import MiddlewareManager
    from ekosis.middleware.middleware_base import MiddlewareBase
    from ekosis.data_transfer_objects import RequestDTO

    class Q(BaseModel):
        n: int
        boom: str = ""
        trail: list = []

    class Opt(BaseModel):
        n: int = 77
        boom: str = ""
        trail: list = []

    class R(BaseModel):
        where: str
        n: int | None = None
        span: str | None = None
        trail: list = []

    tag = eko.uniq("c10-")
    routes = case["routes"]
    ran, problems, buffered_done, hooks = [], [], [], {}
    mgr = MiddlewareManager()
    saved = list(mgr.get_list())
    mgr.get_list().clear()

    def full(i):
        return routes[i]["name"] + "~" + tag      # the suffix keeps cases apart, the names stay look-alikes

    def note(span_key, what):
        hooks.setdefault(str(span_key), []).append(what)

    def register(i, r, mark):
        y = r["yield"]
        key = full(i)
        if r["buffered"]:
            @buffered_endpoint(key, Q, page_size=3)
            async def f(span_key, dto):
                await eko.pause(y)
                buffered_done.append((i, mark, str(span_key), dto.n, list(dto.trail)))
                return True
            return
        if r["shape"] == "dto":
            @endpoint(key, Q)
            async def f(dto):
                ran.append(i)
                await eko.pause(y)
                if dto.boom == "raise":
                    raise RuntimeError("endpoint")
                return R(where=f"{i}{mark}", n=dto.n, trail=list(dto.trail))
        elif r["shape"] == "opt":
            @endpoint(key, Opt)
            async def f(dto, span_key):
                ran.append(i)
                note(span_key, "run")
                await eko.pause(y)
                if dto.boom == "raise":
                    raise RuntimeError("endpoint")
                return R(where=f"{i}{mark}", n=dto.n, span=str(span_key), trail=list(dto.trail))
        elif r["shape"] == "null":
            @endpoint(key, Q)
            async def f(span_key):
                ran.append(i)
                note(span_key, "run")
                await eko.pause(y)
                return None
        elif r["shape"] == "both":
            @endpoint(key, Q)
            async def f(dto, span_key):
                ran.append(i)
                note(span_key, "run")
                await eko.pause(y)
                if dto.boom == "raise":
                    raise RuntimeError("endpoint")
                return R(where=f"{i}{mark}", n=dto.n, span=str(span_key), trail=list(dto.trail))
        elif r["shape"] == "kwargs":
            @endpoint(key, Q)
            async def f(dto, **kwargs):
                ran.append(i)
                await eko.pause(y)
                if dto.boom == "raise":
                    raise RuntimeError("endpoint")
                return R(where=f"{i}{mark}", n=dto.n, trail=list(dto.trail))
        elif r["shape"] == "span":
            @endpoint(key, Q)
            async def f(span_key):
                ran.append(i)
                note(span_key, "run")
                await eko.pause(y)
                return R(where=f"{i}{mark}", span=str(span_key))
        else:
            @endpoint(key, Q)
            async def f():
                ran.append(i)
                await eko.pause(y)
                return R(where=f"{i}{mark}")

    class MW(MiddlewareBase):
        def __init__(self, idx, spec):
            self.idx, self.spec = idx, spec

        async def before_routing(self, **kwargs):
            p = kwargs["protocol_dto"]
            note(p.span_key, f"before{self.idx}")
            if p.span_key != kwargs.get("span_key"):
                problems.append(f"middleware {self.idx} saw span key {p.span_key} in the request, {kwargs.get('span_key')} beside it")
            if isinstance(p.data, dict) and p.data.get("boom") == f"mw_before{self.idx}":
                raise RuntimeError("middleware")
            b = self.spec["before"]
            if b == "slow":
                await asyncio.sleep(1.0)
            if b in ("tag", "slow") and isinstance(p.data, dict):
                p.data = {**p.data, "trail": p.data.get("trail", []) + [f"b{self.idx}"]}
            if b == "replace" and isinstance(p.data, dict):
                p = RequestDTO(route_key=p.route_key, span_key=p.span_key,
                               data={**p.data, "trail": p.data.get("trail", []) + [f"B{self.idx}"]})
            return p

        async def after_routing(self, **kwargs):
            r = kwargs["response_dto"]
            note(kwargs["span_key"], f"after{self.idx}")
            if isinstance(kwargs["protocol_dto"].data, dict) and \
                    kwargs["protocol_dto"].data.get("boom") == f"mw_after{self.idx}":
                raise RuntimeError("middleware")
            a = self.spec["after"]
            if a == "slow":
                await asyncio.sleep(0.7)
            if a == "drop":
                return None
            if r is None and a == "replace":
                return R(where="revived")
            if not isinstance(r, R):
                return r
            if a in ("tag", "slow"):
                r.trail = r.trail + [f"a{self.idx}"]
            if a == "replace":
                r = R(where=r.where, n=r.n, span=r.span, trail=r.trail + [f"A{self.idx}"])
            return r

    for i, r in enumerate(routes):
        register(i, r, "")
    if case["dup"]:
        refused = False
        try:
            register(0, {**routes[0], "shape": "none"}, "dup")
        except Exception:
            refused = True
        check(refused, "a second endpoint was registered on a taken route without an error")
        classes.add("duplicate-registration")
    class Before(MiddlewareBase):          # middleware only has to have the hooks it needs
        before_routing = MW.before_routing
        __init__ = MW.__init__

    class After(MiddlewareBase):
        after_routing = MW.after_routing
        __init__ = MW.__init__

    class Neither(MiddlewareBase):
        pass

    for i, m in enumerate(case["mws"]):
        mgr.add((MW, MW, MW, Before, After)[m["has"]](i, m))
        if m["has"] == 2:
            mgr.add(Neither())
    hasb = [m["has"] != 4 for m in case["mws"]]
    hasa = [m["has"] != 3 for m in case["mws"]]
    d = h.fresh_dir()
    handlers = [eko.buffered_handler(full(i)) for i, r in enumerate(routes) if r["buffered"]]
    befs = [f"{'B' if m['before'] == 'replace' else 'b'}{i}" for i, m in enumerate(case["mws"]) if m["before"] != "pass" and hasb[i]]
    want_buf = []
    order = {}
    nmw = len(case["mws"])

    def through(data):
        """The response after all the after-hooks."""
        for i, m in enumerate(case["mws"]):
            a = m["after"] if hasa[i] else "pass"
            if a == "drop":
                data = None
            elif data is None:
                data = {"where": "revived", "n": None, "span": None, "trail": []} if a == "replace" else None
            elif a != "pass":
                data = {**data, "trail": data["trail"] + [("A" if a == "replace" else "a") + str(i)]}
        return data
    expected_runs = []
    try:
        async with eko.uds_server() as path:
            for x in handlers:
                await x.setup(d, "app", "0")
            conns = [await eko.Conn(path).open() for _ in range(4)]

            async def one(k, q):
                i = q["route"] % len(routes)
                r = routes[i]
                key, data, bad = full(i), {"n": q["n"]}, q["bad"]
                if r["shape"] == "opt" and bad == "missing" and not r["buffered"]:
                    bad = "default"
                    data = {}
                if bad == "type":
                    data = {"n": "not a number"}
                elif bad == "missing":
                    data = {}
                elif bad == "route":
                    key = [key + "x", key + " ", " " + key, key + ".", key + "\t", "\n" + key, key.swapcase()][q["near"]]
                elif bad == "notdict":
                    data = q["junk"]
                elif bad == "raise":
                    data["boom"] = "raise"
                elif bad in ("mw_before", "mw_after"):
                    if not case["mws"] or not (hasb if bad == "mw_before" else hasa)[k % nmw]:
                        bad = None
                    else:
                        data["boom"] = f"{bad}{k % nmw}"
                stages = [f"before{x}" for x in range(nmw) if hasb[x]]
                tells = r["shape"] in ("both", "span", "opt", "null") and not r["buffered"]
                if bad == "route":
                    stages = []
                elif bad == "mw_before":
                    stages = [f"before{x}" for x in range(k % nmw + 1) if hasb[x]]
                elif bad not in ("type", "missing", "notdict"):
                    stages += ["run"] if tells else []
                    if bad == "mw_after":
                        stages += [f"after{x}" for x in range(k % nmw + 1) if hasa[x]]
                    elif not (bad == "raise" and r["shape"] in ("dto", "both", "kwargs", "opt") and not r["buffered"]):
                        stages += [f"after{x}" for x in range(nmw) if hasa[x]]
                order[eko.sk_str(k)] = stages
                res = await conns[q["conn"]].rpc(key, data, eko.sk_dict(k))
                what = f"request {k} {q} to route {i} {r}"
                eq(res["span_key"], eko.sk_dict(k), f"{what}: echoed span key")
                if bad in ("type", "missing"):
                    eq(res["status"], 300, f"{what}: {res}")
                    return
                if bad == "route":
                    eq(res["status"], 400, f"{what}: {res}")
                    return
                if bad == "notdict":
                    check(res["status"] not in (0, 100, 400), lambda: f"{what}: data that is no object gave {res}")
                    return
                if bad in ("mw_before", "mw_after"):
                    if bad == "mw_after":
                        if r["buffered"]:
                            want_buf.append((i, "", eko.sk_str(k), q["n"], befs))
                        else:
                            expected_runs.append(i)
                    check(res["status"] in (600, 999), lambda: f"{what}: a raising middleware gave {res}")
                    return
                if r["buffered"]:
                    eq(res["status"], 0, f"{what}: {res}")
                    if not any(m["after"] == "drop" for m in case["mws"]):
                        eq(res["data"], {"span_key": eko.sk_dict(k)}, f"{what}: acknowledgement")
                    want_buf.append((i, "", eko.sk_str(k), q["n"], befs))
                    return
                expected_runs.append(i)
                if bad == "raise" and r["shape"] in ("dto", "both", "kwargs", "opt"):
                    check(res["status"] in (600, 999), lambda: f"{what}: a raising endpoint gave {res}")
                    return
                eq(res["status"], 0, f"{what}: {res}")
                seen = r["shape"] in ("dto", "both", "kwargs", "opt")
                n = 77 if bad == "default" else q["n"]
                made = None if r["shape"] == "null" else {
                    "where": f"{i}", "n": n if seen else None,
                    "span": eko.sk_str(k) if r["shape"] in ("span", "both", "opt") else None, "trail": befs if seen else []}
                eq(res["data"], through(made), f"{what}: what the stages recorded")

            # requests of one connection are sequential, connections overlap
            async def conn_script(c):
                for k, q in enumerate(case["reqs"]):
                    if q["conn"] == c:
                        await one(k, q)
            await asyncio.gather(*[conn_script(c) for c in range(4)])
            await asyncio.sleep(1000)
            check(not problems, lambda: f"{problems[:2]}")
            eq(sorted(buffered_done), sorted(want_buf), "what the buffered endpoints processed")
            eq(sorted(ran), sorted(expected_runs), "which endpoints ran")
            for key, stages in order.items():
                eq(hooks.get(key, []), stages, f"stages the request {key} went through")
            for x in handlers:
                x.shut_down()
    finally:
        mgr.get_list()[:] = saved
        h.rmdir(d)
    if case["mws"]:
        classes.add("middleware")
    if len({q["conn"] for q in case["reqs"]}) > 1:
        classes.add("overlap")
    if len(routes) > 1:
        classes.add("several-routes")
    if any(q["bad"] for q in case["reqs"]):
        classes.add("bad-request")


def run(case):
    classes = set()
    vloop.run(lambda: body(case, classes))
    return {"middleware", "overlap"} <= classes or "several-routes" in classes, sorted(classes)


def subs():
    return [Sub("routing", strategy, run, quick=250, thorough=5000, shards=6, setup=h.boot)]
