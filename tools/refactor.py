#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites to a scratch copy of the package and runs the checks on it.

usage: refactor.py VARIANT [CHECK ...]     every check has to stay quiet (exit 0)

A variant is a file of tools/refactor: blocks headed by '#@ FILE QUALNAME' whose text replaces that function
(decorators included), or '#@ FILE +' whose text goes after the last import of the file.  It is a development tool: no registered
command uses it."""
import ast, os, pathlib, shutil, subprocess, sys, tempfile, textwrap, concurrent.futures as cf

HERE = pathlib.Path(__file__).resolve().parent


def blocks(path):
    out, head, body = [], None, []
    for line in path.read_text().splitlines(True):
        if line.startswith("#@"):
            if head:
                out.append((*head, "".join(body)))
            head, body = line[2:].split(), []
        else:
            body.append(line)
    if head:
        out.append((*head, "".join(body)))
    return out


def find(tree, qual):
    node = tree
    for part in qual.split("."):
        node = [n for n in node.body if getattr(n, "name", None) == part
                and not (isinstance(n, ast.FunctionDef) and any(getattr(d, "attr", "") == "setter" for d in n.decorator_list))][0]
    return node


def apply(root, variant):
    for file, qual, body in blocks(HERE / "refactor" / (variant + ".txt")):
        path = root / "micropolarray" / file
        src = path.read_text()
        tree = ast.parse(src)
        lines = src.splitlines(True)
        body = textwrap.dedent(body).strip("\n") + "\n"
        if qual == "+":
            last = max(n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)))
            lines[last:last] = ["\n", body, "\n"]
        else:
            n = find(tree, qual)
            start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            indent = " " * n.col_offset
            lines[start:n.end_lineno] = [textwrap.indent(body, indent)]
        out = "".join(lines)
        ast.parse(out)
        path.write_text(out)


def main():
    variant, checks = sys.argv[1], sys.argv[2:]
    if not checks:
        checks = ["C%02d" % i for i in range(1, 38)]
    d = pathlib.Path(tempfile.mkdtemp(prefix="refac"))
    try:
        shutil.copytree("/repo/micropolarray", d / "micropolarray")
        shutil.copytree("/repo/tests", d / "tests")
        apply(d, variant)
        env = dict(os.environ, VERIF_REPO=str(d), PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run("cd %s && . /opt/vp/env.sh 2>/dev/null; PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -4" % (d, d),
                           shell=True, executable="/bin/bash", capture_output=True, text=True, env=dict(env, MPLBACKEND="Agg"))
        print("TESTS", t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr)

        def one(c):
            try:
                r = subprocess.run(["./run", c], cwd=HERE.parent, capture_output=True, text=True, env=env, timeout=900)
            except subprocess.TimeoutExpired:
                return c, "timeout", ""
            return c, r.returncode, r.stdout + r.stderr
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
            for c, rc, out in ex.map(one, checks):
                print(c, rc, flush=True)
                if rc != 0:
                    print(textwrap.indent("\n".join(l for l in out.splitlines()[-12:]), "    "), flush=True)
    finally:
        shutil.rmtree(d)


main()
