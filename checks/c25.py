"""C25: the address, identifier and dictionary helpers decide exactly what they say."""
import socket
import string
import uuid

import harness as h
from harness import Sub, eq, check, Violation

RULE = ("generated texts near and inside the grammars of IPv4 addresses, host names, port numbers, URLs and UUIDs, and generated nested dictionaries; oracle = "
        "independent hand-written recognisers and a path-by-path reconstruction; non-trivial = a valid text, a valid text with one change, or a nested dictionary")
ASSUMPTIONS = ["dictionary keys are non-empty texts without dots (the separator)"]
LDH = set(string.ascii_letters + string.digits + "-")


def strategy():
    from hypothesis import strategies as st
    label = st.one_of(st.text(alphabet="abzAZ09-", min_size=1, max_size=8), st.integers(60, 66).map(lambda n: "a" * n))
    good = st.text(alphabet="abcXYZ019", min_size=1, max_size=8)
    host = st.one_of(st.lists(good, min_size=1, max_size=5).map(".".join), st.lists(label, min_size=1, max_size=5).map(".".join),
                     st.integers(250, 258).map(lambda n: ("a" * 49 + ".") * 5 + "b" * (n - 250)), st.integers(1, 4).flatmap(lambda k: st.lists(st.just("x" * 63), min_size=k, max_size=k).map(".".join)))
    octet = st.one_of(st.integers(0, 300).map(str), st.sampled_from(["00", "01", "007", "", "256", "255", "1e1", "\u0661", " 1", "-1"]))
    ip = st.one_of(st.lists(st.integers(0, 255).map(str), min_size=4, max_size=4), st.lists(octet, min_size=3, max_size=5)).map(".".join)
    port = st.one_of(st.integers(0, 65535).map(str), st.integers(65530, 70000).map(str), st.text(alphabet="0123456789", max_size=6), st.sampled_from(["", "\u00b2", "\u0663", "-1", "+1", "1.0", " 80", "80\n", "0x50", "1_0", "9" * 5000]))
    uid = st.one_of(st.uuids().map(str), st.uuids().map(lambda u: u.hex), st.uuids().map(lambda u: u.urn), st.uuids().map(lambda u: "{" + str(u).upper() + "}"))
    url = st.tuples(st.sampled_from(["http", "https", "h2+x", "", "1a", "ht tp"]), st.sampled_from(["://", ":", "//", ":/", "", "://"]), st.one_of(host, ip, st.sampled_from(["", "[::1]", "[::1", "]x["])), st.sampled_from(["", ":80", "/", "/a?b#c", "?q", "\n"]))
    base = {"host": host, "ip": ip, "port": port, "uuid": uid, "url": url.map("".join)}
    change = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["ins", "del", "rep", "end", "start"]), st.integers(0, 300), st.sampled_from([".", "-", "_", " ", "\n", "\t", "a", "0", ":", "\u017f", "\u212a", "\u0663", "\u00e9", "/", "\x00", "%"])))
    texts = st.lists(st.sampled_from(sorted(base)).flatmap(lambda k: st.tuples(st.just(k), base[k], change)), min_size=1, max_size=8)
    key = st.text(alphabet="ab_ \u00e9\"1", min_size=1, max_size=3)
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from([0.0, 1.5, "", "x"]), st.lists(st.integers(0, 2), max_size=2), st.lists(st.dictionaries(key, st.integers(0, 2), max_size=1), max_size=1))
    tree = st.dictionaries(key, st.recursive(leaf, lambda c: st.dictionaries(key, c, max_size=4), max_leaves=12), max_size=4)
    return st.fixed_dictionaries({"texts": texts, "tree": tree})


def changed(s, c):
    if c is None:
        return s
    op, i, x = c
    i %= len(s) + 1
    return {"ins": s[:i] + x + s[i:], "del": s[:i] + s[i + 1:], "rep": s[:i] + x + s[i + 1:], "end": s + x, "start": x + s}[op]


def is_ip(s):
    p = s.split(".")
    return len(p) == 4 and all(o and len(o) <= 3 and set(o) <= set(string.digits) and int(o) <= 255 and (o == "0" or o[0] != "0") for o in p)


def is_host(s):
    if not s or len(s) > 255:
        return False
    if s[-1] == ".":
        s = s[:-1]
    return all(0 < len(l) <= 63 and set(l) <= LDH and l[0] != "-" and l[-1] != "-" for l in s.split("."))


def is_uuid(s):
    t = s.replace("urn:", "").replace("uuid:", "").strip("{}").replace("-", "")
    return t if len(t) == 32 and set(t) <= set(string.hexdigits) else None


def run(case):
    from ekosis.util import utility_functions as u
    classes = set()

    def call(f, *a):
        try:
            return f(*a)
        except Exception as e:
            raise Violation(f"{f.__name__}{a!r} raised {e!r}")
    for kind, base, change in case["texts"]:
        s = changed(base, change)
        ip, host = is_ip(s), is_host(s)
        if kind == "uuid":
            w = is_uuid(s)
            r = call(u.string_to_uuid, s)
            if w is None and set(s) <= set(string.hexdigits + "-{}urnid:") or w is not None:
                eq(r, uuid.UUID(int=int(w, 16)) if w else False, f"string_to_uuid({s!r})")
            else:
                check(r is False or isinstance(r, uuid.UUID), lambda: f"string_to_uuid({s!r}) gave {r!r}")
        elif kind == "port":
            digits = bool(s) and set(s) <= set(string.digits)
            r = call(u.is_valid_port_number, s)
            check(isinstance(r, bool), lambda: f"is_valid_port_number({s!r}) gave {r!r}")
            if not (digits and s[0] == "0" and len(s) > 5):        # padded beyond five digits: either way
                eq(r, digits and len(s) <= 5 and int(s) <= 65535, f"is_valid_port_number({s!r})")
        elif kind == "url":
            r = call(u.is_valid_url, s)
            check(isinstance(r, bool), lambda: f"is_valid_url({s!r}) gave {r!r}")
            if change is None:
                scheme, sep, rest = s.partition("://")
                name = rest.split("/")[0].split("?")[0].strip()
                plain = bool(scheme) and set(scheme) <= set(string.ascii_letters + string.digits + "+") and scheme[0].isalpha() and bool(sep)
                if plain and name and not set(name) & set("[]:"):
                    eq(r, True, f"is_valid_url({s!r})")
                    classes.add("url")
                if not sep and "//" not in s or not plain or not name:
                    eq(r, False, f"is_valid_url({s!r})")
        else:
            eq(call(u.is_valid_ipv4_address, s), ip, f"is_valid_ipv4_address({s!r})")
            eq(call(u.is_possible_valid_ietf_hostname, s), host, f"is_possible_valid_ietf_hostname({s!r})")
            eq(call(u.is_valid_hostname, s), ip or host, f"is_valid_hostname({s!r})")
            want = socket.gethostname() if s in ("127.0.0.1", "localhost") else s if ip or host else None
            eq(call(u.get_machine_hostname, s), want, f"get_machine_hostname({s!r})")
            classes.update({"ip"} if ip else {"host"} if host else {"invalid"})
        if change:
            classes.add("changed")
    tree = case["tree"]

    def leaves(t, path=()):
        for k, v in t.items():
            if isinstance(v, dict):
                yield from leaves(v, path + (k,))
            else:
                yield ".".join(path + (k,)), v
    import copy
    before = copy.deepcopy(tree)
    got = call(u.flatten_dictionary, tree)
    eq([(k, repr(v)) for k, v in got.items()], [(k, repr(v)) for k, v in leaves(before)], f"flatten_dictionary({before!r})")
    eq(repr(tree), repr(before), "the dictionary that was flattened")
    if any(isinstance(v, dict) for v in tree.values()):
        classes.add("nested")
    return bool(classes & {"ip", "host", "url", "changed", "nested"}), sorted(classes)


def subs():
    return [Sub("helpers", strategy, run, quick=1500, thorough=60000, shards=7, setup=h.boot)]
