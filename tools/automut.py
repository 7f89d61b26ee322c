#!/usr/bin/env python3
"""automut.py OUT N SEED [file-prefix...]: N random syntactic mutants of /repo's Python code; each is run against the checks of its file
until one catches it; survivors (and errors) are listed in OUT with their diff."""
import ast, difflib, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("ekosis/queues/paginated", "C01 C02 C26"), ("ekosis/queues/pending", "C01 C03 C06"), ("ekosis/requests/buffered_handler_base", "C03 C04 C06 C13 C26"),
       ("ekosis/requests/buffered_", "C03"), ("ekosis/sending/buffered_sender_base", "C05 C06 C13 C26"), ("ekosis/sending/buffered", "C05 C11"), ("ekosis/sending", "C11"),
       ("ekosis/clients/client_base", "C09 C11"), ("ekosis/clients", "C09 C08 C24"), ("ekosis/servers", "C07 C23 C24"), ("ekosis/middleware/buffered", "C03 C20"),
       ("ekosis/middleware", "C10"), ("ekosis/requests/request_context", "C12 C11"), ("ekosis/requests", "C10 C07"), ("ekosis/data_transfer_objects/otlp", "C12"), ("ekosis/data_transfer_objects/queue", "C06"),
       ("ekosis/data_transfer_objects/log", "C12"), ("ekosis/data_transfer_objects/error", "C21"), ("ekosis/data_transfer_objects/stat", "C13"), ("ekosis/data_transfer_objects", "C11 C07"),
       ("ekosis/logs", "C12"), ("ekosis/state_keepers/stat", "C13"), ("ekosis/state_keepers/error", "C21"), ("ekosis/state_keepers/buffered", "C06"), ("ekosis/cacheing", "C14"),
       ("ekosis/configuration", "C15 C12 C16 C13"), ("ekosis/application_base", "C23 C16 C04 C15"), ("ekosis/standard_endpoints/buffered", "C06"), ("ekosis/standard_endpoints/log", "C12"),
       ("ekosis/standard_endpoints/stat", "C13"), ("ekosis/standard_endpoints/errors", "C21"), ("ekosis/cli", "C22"), ("ekosis/exceptions", "C09 C07"), ("ekosis/util/fire", "C23"), ("ekosis/util/sing", "C10 C16"),
       ("ekosis/util/utility", "C25 C15 C11"), ("ekosis/util", "C15 C11"), ("ekosis_prometheus", "C19"), ("ekosis_otlp_traces", "C20"), ("ekosis_log_shipper/src", "C17 C18")]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def sites(src):
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, e = span(n)
        return b[a:e].decode()
    out = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((span(n), f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})"))
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((span(n), "(" + op.join(text(v) for v in n.values) + ")"))
            out.append((span(n), text(n.values[0])))
            out.append((span(n), text(n.values[-1])))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((span(n), text(n.operand)))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((span(n.test), f"(not ({text(n.test)}))"))
            if isinstance(n, ast.If):
                out.append((span(n.test), "False"))
                out.append((span(n.test), "True"))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((span(n), str(n.value + 1)))
            out.append((span(n), str(n.value - 1)))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((span(n), str(not n.value)))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((span(n), f"({text(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {text(n.right)})"))
        if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            out.append((span(n), "pass"))
        if isinstance(n, (ast.AugAssign, ast.Raise, ast.Break, ast.Continue)):
            out.append((span(n), "pass"))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            out.append((span(n), "pass"))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            out.append((span(n), "return None"))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((span(n.args[0]), text(n.args[1])))
        if isinstance(n, ast.Call) and n.keywords and n.keywords[-1].arg and len(n.keywords) > 1:
            out.append((span(n.keywords[0].value), "None"))
    res = []
    for (a, e), new in out:
        t = (b[:a] + new.encode() + b[e:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append(t)
    return res


CPP = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<(?![<=a-z])", "<="), (r"(?<![>\-])>(?![>=(])", ">="), (r"<=", "<"), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m[1]) + 1)), (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m[1]) - 1)),
       (r"if \((.*)\) *(\{|return|continue|break)", r"if (!(\1)) \2"), (r" \+ ", " - "), (r"\+=", "="), (r"!(?=[a-z_])", ""), (r"^(\s+)[\w:.>-]+(\(|\[| =| \+=).*;$", r"\1;"), (r"\bcontinue;", ";"), (r"\bbreak;", ";")]


def cpp_sites(src):
    res, lines = [], src.split("\n")
    for i, l in enumerate(lines):
        if l.strip().startswith(("//", "#")):
            continue
        for pat, new in CPP:
            for m in re.finditer(pat, l):
                t = l[:m.start()] + (new(m) if callable(new) else m.expand(new)) + l[m.end():]
                if t != l:
                    res.append("\n".join(lines[:i] + [t] + lines[i + 1:]))
    return res


def main():
    out, n, seed, only = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    tmp = tempfile.mkdtemp(prefix="amut-", dir="/tmp")
    w = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", os.environ.get("AUTOMUT_REPO", "/repo"), w], check=True)
    allm = []
    for f in subprocess.run(["git", "-C", w, "ls-files", "*.py", "*.cpp"], stdout=subprocess.PIPE, text=True).stdout.split():
        c = next((c for p, c in MAP if f.startswith(p)), None)
        if c is None or (only and not any(f.startswith(o) for o in only)):
            continue
        src = open(os.path.join(w, f)).read()
        allm += [(f, src, t, c.split()) for t in (cpp_sites if f.endswith("cpp") else sites)(src)]
    rnd = random.Random(seed)
    rnd.shuffle(allm)
    print(len(allm), "mutants possible", flush=True)
    stat = {}
    try:
        for k, (f, src, t, checks) in enumerate(allm[:n]):
            p = os.path.join(w, f)
            open(p, "w").write(t)
            t0, res = time.time(), "SURVIVED"
            for c in checks:
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "lib/run.py", c], cwd=V, env={**os.environ, "VERIF_REPO": w, "VERIF_SHRINK": "1", "VERIF_FAILFAST": "1"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res = f"TIMEOUT-{c}"
                    break
                if r.returncode == 1:
                    res = f"caught-{c}"
                    break
                if r.returncode != 0 and f.endswith("cpp") and "error:" in r.stdout:
                    res = "caught-compiler"
                    break
                if r.returncode != 0:
                    res = f"ERROR-{c}"
                    err = r.stdout[-600:]
                    break
            open(p, "w").write(src)
            stat[res.split("-")[0]] = stat.get(res.split("-")[0], 0) + 1
            with open(out, "a") as o:
                if res.startswith("caught"):
                    o.write(f"{k} {f} {res} {time.time()-t0:.0f}s\n")
                else:
                    d = "\n".join(l for l in difflib.unified_diff(src.splitlines(), t.splitlines(), lineterm="", n=2) if not l.startswith(("---", "+++")))
                    o.write(f"{k} {f} {res} {time.time()-t0:.0f}s\n{d}\n{err if res.startswith('ERROR') else ''}\n")
                o.write(f"   # {stat}\n") if k % 20 == 19 else None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
