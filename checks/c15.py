"""C15: the effective configuration is decided by instance > application > machine > default, with the file above them all."""
import copy
import json
import os

import harness as h
import forked
from harness import Sub, eq, check

RULE = ("script names, instance ids, every setting set at a generated subset of levels (empty values and near-miss variables of "
        "other applications and instances included), partial configuration files with several instances, logging switches; each "
        "case runs in a fresh process and compares the whole effective configuration, and the lock/log/buffer/socket files an "
        "application then really uses, with an independent resolver; non-trivial = some setting given at two or more levels")
ASSUMPTIONS = ["gather period of at least a second", "values have the documented type", "an empty variable counts as unset", "no variable name is claimed by two levels at once",
               "keys of 'extra' in a file win; whether others survive is not specified"]
SCRIPTS = {"MyCoolApplication.py": "my_cool_application", "my_cool_application.py": "my_cool_application", "app.py": "app", "app": "app",
           "App2.py": "app2", "xY.py": "x_y", "fooBarBaz": "foo_bar_baz", "HTTPGate.py": "h_t_t_p_gate", "my.python.tool.py": "my.python.tool"}
INSTANCES = ["0", "1", "10", "feeds_cats", "Feeds_Dogs", "x-7"]
INTS = {"STAT_GP": 300, "STAT_HL": 12, "LOG_BUF_SIZE": 0, "LOG_MAX_SIZE": 10485760, "LOG_MAX_FILES": 10}
LEVELNAMES = ["debug", "info", "warn", "error", "critical"]
DIRS = ["DEFAULT_DIR", "LOCK_DIR", "LOG_DIR", "BUFFER_DIR"]
ALL = [*INTS, "LOG_LEVEL", *DIRS]


def strategy():
    from hypothesis import strategies as st
    lv = st.sampled_from(["machine", "app", "instance"])
    setting = st.tuples(st.sampled_from(ALL), lv, st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.none()))
    decoy = st.tuples(st.sampled_from(ALL + ["TCP", "UDP", "UDS"]), st.sampled_from(["other-app", "longer-app", "other-instance", "instance-0", "instance-1", "instance-10", "longer-instance", "lower", "bare", "instance-only"]))
    net = st.one_of(st.none(), st.tuples(st.sampled_from(["127.0.0.1", "10.1.2.3", "localhost", "some.host"]), st.integers(1, 65535)))
    uds = st.sampled_from([None, None, "DEFAULT", "my.sock", "DEFAULTS", "default", "xDEFAULT", "DEFAULT.sock", "nodir"])
    extra = st.lists(st.tuples(lv, st.sampled_from(["K", "DATABASE_NAME", "A_B"]), st.integers(0, 9)), max_size=4)
    conf = st.fixed_dictionaries({}, optional={
        "lock_directory": st.integers(0, 9), "buffer_directory": st.integers(0, 9), "gather_period": st.integers(1, 999),
        "history_length": st.integers(0, 99), "tcp": st.integers(1, 65535), "udp": st.integers(1, 65535),
        "uds": st.sampled_from(["DEFAULT", "file.sock", "Default"]), "level": st.sampled_from(LEVELNAMES), "directory": st.integers(0, 9),
        "max_size_in_bytes": st.integers(1000, 10 ** 6), "max_files": st.integers(1, 30), "buffer_size": st.integers(0, 30),
        "extra": st.dictionaries(st.sampled_from(["K", "Z"]), st.sampled_from(["fv", "w"]), max_size=2)})
    return st.fixed_dictionaries({
        "script": st.sampled_from(sorted(SCRIPTS)), "inst": st.sampled_from(INSTANCES), "set": st.lists(setting, max_size=14),
        "decoys": st.lists(decoy, max_size=5), "tcp": net, "udp": net, "uds": uds, "extra": extra,
        "file": st.one_of(st.none(), st.none(), conf), "otherinst": st.booleans(), "flag": st.sampled_from(["", "", "-lfo", "-lco"]),
        "app": st.booleans(), "broken": st.sampled_from([None] * 12 + ["missing", "json", "instance", "type", "noarg"])})


def run(case):
    d = h.fresh_dir()
    dirs = [os.path.join(d, f"dir{i}") for i in range(10)]
    for x in dirs:
        os.mkdir(x)
    name, inst = SCRIPTS[case["script"]], case["inst"]
    up, ui = name.upper(), inst.upper()
    classes = set()

    def val(k, i):
        if i is None:
            return ""
        if k in INTS:
            return str([13 if k == "STAT_GP" else 0, 1, 2, 5, 17, 300, 4096, 99999, 7, 3][i])
        return LEVELNAMES[i % 5] if k == "LOG_LEVEL" else dirs[i]

    given = {}
    for k, lv, i in case["set"]:
        given[k, lv] = val(k, i)
    if case["app"]:     # a real application follows: keep every file inside the scratch directory
        given.setdefault(("DEFAULT_DIR", "machine"), dirs[0])
        given["DEFAULT_DIR", "machine"] = given["DEFAULT_DIR", "machine"] or dirs[0]
    suffix = {"machine": "", "app": f"_{up}", "instance": f"_{up}_{ui}"}
    env = {}
    for k, kind in case["decoys"]:
        if kind in ("instance-0", "instance-1", "instance-10") and kind[9:] == inst:
            continue
        s = {"instance-0": f"_{up}_0", "instance-1": f"_{up}_1", "instance-10": f"_{up}_10", "other-app": "_OTHER", "longer-app": f"_{up}X", "other-instance": f"_{up}_{ui}9", "longer-instance": f"_{up}_{ui}_Q",
             "lower": f"_{up.lower()}_{ui.lower()}" if (up + ui) != (up + ui).lower() else "_zz", "bare": f"{up}",
             "instance-only": f"_{ui}"}[kind]
        env[f"ECOENV_{k}{s}"] = "10.9.9.9:999" if k in ("TCP", "UDP") else f"{d}/decoy.sock" if k == "UDS" else \
            "77" if k in INTS else "critical" if k == "LOG_LEVEL" else f"{d}/decoy"
        classes.add("decoy")
    for (k, lv), v in given.items():
        env[f"ECOENV_{k}{suffix[lv]}"] = v
    for k in ("tcp", "udp"):
        if case[k]:
            env[f"ECOENV_{k.upper()}_{up}_{ui}"] = f"{case[k][0]}:{case[k][1]}"
    if case["uds"] == "nodir":      # a socket in a directory that does not exist is no socket at all
        env[f"ECOENV_UDS_{up}_{ui}"] = f"{d}/not-there/my.sock"
        classes.add("uds-nodir")
    elif case["uds"]:
        env[f"ECOENV_UDS_{up}_{ui}"] = f"{dirs[9]}/{case['uds']}"
    ex = {"machine": {}, "app": {}, "instance": {}}
    for lv, k, i in case["extra"]:
        env[f"ECOENV_EXTRA{suffix[lv]}_{k}"] = ex[lv][k] = f"v{i}"
        classes.add("extra")

    def resolve(k, default):
        for lv in ("instance", "app", "machine"):
            if given.get((k, lv)):
                return given[k, lv]
        return default

    num = lambda k: int(resolve(k, INTS[k]))
    ddir = resolve("DEFAULT_DIR", "/tmp")
    want = {"name": name, "instance": inst,
            "tcp": {"host": case["tcp"][0], "port": case["tcp"][1]} if case["tcp"] else None,
            "udp": {"host": case["udp"][0], "port": case["udp"][1]} if case["udp"] else None,
            "uds": {"directory": dirs[9], "socket_file_name": f"{name}_{inst}.uds.sock" if case["uds"] == "DEFAULT" else case["uds"]} if case["uds"] not in (None, "nodir") else None,
            "stats_keeper": {"gather_period": num("STAT_GP"), "history_length": num("STAT_HL")},
            "lock_directory": resolve("LOCK_DIR", ddir), "buffer_directory": resolve("BUFFER_DIR", None),
            "log": {"directory": resolve("LOG_DIR", ddir), "buffer_size": num("LOG_BUF_SIZE"), "max_size_in_bytes": num("LOG_MAX_SIZE"),
                    "max_files": num("LOG_MAX_FILES"), "level": resolve("LOG_LEVEL", "info"), "console_only": case["flag"] == "-lco",
                    "file_only": case["flag"] == "-lfo"},
            "extra": {**ex["machine"], **ex["app"], **ex["instance"]}}
    argv = [os.path.join("/some/path.py/dir", case["script"])]
    if case["broken"] != "noarg":
        argv += ["-i", inst]
    if case["flag"]:
        argv.append(case["flag"])
    f = case["file"]
    if case["broken"] in ("missing", "json", "instance", "type") and f is None:
        f = {}
    if f is not None:
        classes.add("file")
        o, lg, fl, sk = {}, {}, {}, {}
        for k in ("lock_directory", "buffer_directory"):
            if k in f:
                o[k] = want[k] = dirs[f[k]]
        for k in ("gather_period", "history_length"):
            if k in f:
                sk[k] = want["stats_keeper"][k] = f[k]
        for k in ("tcp", "udp"):
            if k in f:
                o[k] = want[k] = {"host": "127.0.0.9", "port": f[k]}
        if "uds" in f:
            o["uds"] = want["uds"] = {"directory": dirs[8], "socket_file_name": f["uds"]}
        if "level" in f:
            lg["level"] = want["log"]["level"] = f["level"]
        for k in ("max_size_in_bytes", "max_files", "buffer_size"):
            if k in f:
                fl[k] = want["log"][k] = f[k]
        if "directory" in f:
            fl["directory"] = want["log"]["directory"] = dirs[f["directory"]]
        if "extra" in f:
            o["extra"] = f["extra"]
        if fl:
            lg["file_logging"] = fl
        if lg:
            o["logging"] = lg
        if sk:
            o["stats_keeper"] = sk
        insts = {inst: o} if case["broken"] != "instance" else {}
        if case["otherinst"] or case["broken"] == "instance":
            insts = {"someone_else": {"lock_directory": "/nowhere", "tcp": {"host": "9.9.9.9", "port": 9}, "extra": {"K": "wrong"},
                                      "logging": {"level": "critical"}}, **insts}
        if case["broken"] == "type":
            insts[inst] = {**o, "tcp": {"host": "x", "port": "not a number"}}
        cf = os.path.join(d, "conf.json")
        argv += ["-c", cf]
        if case["broken"] != "missing":
            with open(cf, "w") as fh:
                fh.write("{ not json" if case["broken"] == "json" else json.dumps({"instances": insts}))

    def child():
        import sys
        sys.stdout = sys.stderr = open(os.devnull, "w")
        from ekosis.configuration.config_models import AppConfiguration
        c = AppConfiguration()
        m = lambda x: None if x is None else x.model_dump()
        out = {"name": c.name, "instance": c.instance, "tcp": m(c.tcp), "udp": m(c.udp), "uds": m(c.uds), "stats_keeper": m(c.stats_keeper),
               "lock_directory": c.lock_directory, "buffer_directory": c.buffer_directory, "extra": c.extra,
               "log": {"level": c.logging.level, "console_only": c.logging.console_only, "file_only": c.logging.file_only,
                       **{k: getattr(c.logging.file_logging, k) for k in ("directory", "buffer_size", "max_size_in_bytes", "max_files")}}}
        out["dict"] = c.dict()
        if case["app"]:
            from ekosis.application_base import ApplicationBase
            import asyncio
            import logging
            from pydantic import BaseModel
            from ekosis.requests.buffered_endpoint import buffered_endpoint
            if out["buffer_directory"]:
                class Q(BaseModel):
                    a: int

                @buffered_endpoint("some.route", Q)
                async def b(dto):
                    return True
            logging.getLogger().critical("marker")

            class App(ApplicationBase):
                async def setup_tasks(self, tasks):
                    tasks.append(asyncio.create_task(self.look()))

                async def look(self):
                    for i in range(400):        # until the sockets it should have are there
                        out["uds_path"] = [os.path.join(p, x) for p in (dirs[8], dirs[9]) for x in os.listdir(p) if x.lower().endswith(("sock", "default", "defaults"))]
                        if i > 5 and len(out["uds_path"]) >= bool(want["uds"]):
                            break
                        await asyncio.sleep(0.01)
                    raise KeyError("enough")
            c.tcp = c.udp = None        # only files are observed here, no ports
            type(c).tcp = type(c).udp = None
            with App() as app:
                app.start()
        return out

    try:
        got = forked.run(child, argv, env, timeout=40)
        if case["broken"]:
            classes.add("broken-" + case["broken"])
            check("exit" in got and got["exit"] not in (0, None), lambda: f"a {case['broken']} configuration was accepted: {got}")
            return True, sorted(classes)
        check("exit" not in got, lambda: f"a valid configuration was refused: {got}")
        extra = got.pop("extra")
        wextra = want.pop("extra")
        if f is not None and "extra" in f:
            check(isinstance(extra, dict) and all(extra.get(k) == v for k, v in f["extra"].items()),
                  lambda: f"extra: got {extra}, the file says {f['extra']}")
            check(all(k in f["extra"] or wextra.get(k) == v for k, v in extra.items()), lambda: f"extra: got {extra} out of nowhere")
        else:
            check(all(extra.get(k) == v for k, v in wextra.items()), lambda: f"extra: got {extra}, expected {wextra}")
            stray = {k for k in extra if k not in wextra}
            check(not stray, lambda: f"extra: unexpected {stray}")
        seen = got.pop("uds_path", None)
        whole = got.pop("dict")
        eq(got, want, "effective configuration")
        logs = whole.pop("logging")
        eq(whole.pop("extra"), extra, "extra of the configuration as a dictionary")
        whole["log"] = {**{k: logs[k] for k in ("level", "console_only", "file_only")},
                        **{k: logs["file_logging"][k] for k in ("directory", "buffer_size", "max_size_in_bytes", "max_files")}}
        eq(whole, want, "configuration as a dictionary")
        if case["app"]:
            classes.add("application")
            lock = os.path.join(want["lock_directory"], f"{name}-{inst}.lock")
            check(os.path.exists(lock), lambda: f"no lock file {lock}")
            log = os.path.join(want["log"]["directory"], f"{name}-{inst}.log")
            eq(os.path.exists(log), case["flag"] != "-lco", f"log file {log} exists")
            if want["buffer_directory"]:
                made = sorted(x for x in os.listdir(want["buffer_directory"]) if x.startswith(f"{name}-{inst}-some.route"))
                eq(made, [f"{name}-{inst}-some.route-endpoint-{x}.sqlite" for x in ("error", "pending")], f"queue databases in {want['buffer_directory']} (documented names)")
            if want["uds"]:
                sock = want["uds"]["socket_file_name"]
                sock = os.path.join(want["uds"]["directory"], f"{name}_{inst}.uds.sock" if sock == "DEFAULT" else sock)
                eq(seen, [sock], "sockets while the application runs")
                classes.add("socket")
        lv = {}
        for (k, l), v in given.items():
            if v:
                lv.setdefault(k, set()).add(l)
            else:
                classes.add("empty")
        multi = [k for k in lv if len(lv[k]) > 1]
        if multi:
            classes.add("multi-level")
        return bool(multi) or (f is not None and bool(lv)), sorted(classes)
    finally:
        h.rmdir(d)


def subs():
    return [Sub("resolve", strategy, run, quick=200, thorough=4000, shards=7, setup=forked.preload)]
