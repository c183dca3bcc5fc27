"""scratch copy of /repo/qampy: only the .py files of the current tree, no compiled extensions; asserts in files that
pythran compiles are blanked (pythran drops them), keeping every line number."""
import ast, os, shutil


def strip_asserts(txt):
    lines = txt.split("\n")
    for n in ast.walk(ast.parse(txt)):
        if isinstance(n, ast.Assert):
            a, b = n.lineno - 1, n.end_lineno - 1
            lines[a] = lines[a][:n.col_offset] + "pass" + (lines[b][n.end_col_offset:] if a == b else "")
            for q in range(a + 1, b + 1):
                lines[q] = lines[q][n.end_col_offset:] if q == b and lines[q][n.end_col_offset:].lstrip().startswith('#') else ""
    return "\n".join(lines)


def make(repo, d):
    src = os.path.join(repo, "qampy")
    for base, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "test", "tests")]
        rel = os.path.relpath(base, repo)
        os.makedirs(os.path.join(d, rel), exist_ok=True)
        for f in files:
            if not f.endswith(".py"):
                continue
            t = open(os.path.join(base, f), encoding="utf-8").read()
            if "#pythran export" in t:
                try:
                    t = strip_asserts(t)
                except SyntaxError:
                    pass
            with open(os.path.join(d, rel, f), "w", encoding="utf-8") as o:
                o.write(t)
    return d
