"""C14: the LRU cache is a bounded map that evicts exactly the least recently used entry."""
from collections import OrderedDict

import harness as h
from harness import Sub, eq, check

RULE = ("operation sequences (set, read, peek, get with default, keyed and plain pop, delete, clear, membership, listings) over "
        "small key sets and capacities 1..6; oracle = an ordered dict, compared in full after every operation; non-trivial = at "
        "least one eviction and one removal or recency change before it")
ASSUMPTIONS = ["capacity >= 1", "the cache is not modified while it is being iterated", "pop() without a key removes the most recently used entry"]
KEYS = ["a", "b", "c", "d", "e", "f", "g", 1, 2, None, "", ["t", 1]]


def strategy():
    from hypothesis import strategies as st
    k = st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(0, len(KEYS) - 1))
    v = st.one_of(st.integers(0, 9), st.none(), st.just(""))
    op = st.one_of(st.tuples(st.just("set"), k, v), st.tuples(st.just("set"), k, v), st.tuples(st.just("set"), k, v),
                   st.tuples(st.sampled_from(["read", "get", "peek", "popitem", "del", "in"]), k),
                   st.tuples(st.sampled_from(["getd", "peekd", "popitemd"]), k),
                   st.sampled_from([("pop",), ("pop",), ("pop",), ("pop",), ("clear",)]))
    return st.fixed_dictionaries({"size": st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 6]), "ops": st.one_of(st.lists(op, min_size=1, max_size=12), st.lists(op, min_size=12, max_size=50))})


def run(case):
    from ekosis.cacheing import LRUCache
    key = lambda i: tuple(KEYS[i]) if isinstance(KEYS[i], list) else KEYS[i]
    c, m = LRUCache(case["size"]), OrderedDict()          # model: last = most recently used
    classes, touched, evicted = set(), False, False
    D = object()
    for n, op in enumerate(case["ops"]):
        what = f"operation {n} {op}"
        k = key(op[1]) if len(op) > 1 else None
        if op[0] == "set":
            c[k] = op[2]
            if k not in m and len(m) == case["size"]:
                m.popitem(last=False)
                evicted = True
                classes.add("evict")
                if touched:
                    classes.add("evict-after-reorder")
            touched |= k in m
            m[k] = op[2]
            m.move_to_end(k)
        elif op[0] == "read":
            try:
                got = ("v", c[k])
            except KeyError:
                got = ("keyerror",)
            eq(got, ("v", m[k]) if k in m else ("keyerror",), what)
            if k in m:
                m.move_to_end(k)
                touched = True
        elif op[0] in ("get", "getd"):
            got = c.get(k) if op[0] == "get" else c.get(k, D)
            eq(got, m[k] if k in m else (None if op[0] == "get" else D), what)
            if k in m:
                m.move_to_end(k)
                touched = True
        elif op[0] in ("peek", "peekd"):
            got = c.peek(k) if op[0] == "peek" else c.peek(k, D)
            eq(got, m[k] if k in m else (None if op[0] == "peek" else D), what)
        elif op[0] in ("popitem", "popitemd"):
            got = c.pop_item(k) if op[0] == "popitem" else c.pop_item(k, D)
            eq(got, m.pop(k) if k in m else (None if op[0] == "popitem" else D), what)
            touched = True
        elif op[0] == "del":
            if k in m:
                del c[k]
                del m[k]
                touched = True
                classes.add("del")
            else:
                try:
                    del c[k]
                except KeyError:
                    pass
        elif op[0] == "in":
            eq(k in c, k in m, what)
        elif op[0] == "pop":
            got = c.pop()
            eq(got, m.popitem(last=True) if m else None, what)
            touched = True
        elif op[0] == "clear":
            c.clear()
            m.clear()
            classes.add("clear")
        want = list(reversed(m.items()))
        eq(len(c), len(want), f"after {what}: size")
        eq(list(c.items()), want, f"after {what}: entries, most recently used first")
        eq(list(c.keys()), [a for a, _ in want], f"after {what}: keys")
        eq(list(c.values()), [b for _, b in want], f"after {what}: values")
        eq(list(c), [a for a, _ in want], f"after {what}: iteration")
        for kk in m:
            check(kk in c and c.peek(kk, D) == m[kk], lambda: f"after {what}: entry {kk!r} is not found")
    return evicted and touched, sorted(classes)


def subs():
    return [Sub("cache-model", strategy, run, quick=2500, thorough=60000, shards=4, setup=h.boot)]
