#!/usr/bin/env python3
"""mutate.py PROP FILE[:name,name] ... [--max N] [--jobs J] [--seed S]: development aid. Small changes to the code of a property, and whether its check sees them.

A name restricts the changes to a function (or subroutine) of that name. Output: one line per change, KILLED, SURVIVED, NOANSWER or BROKEN (does not build)."""
import argparse
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from fw import util                                     # noqa
from fw.registry import CHECKS                          # noqa
import check                                            # noqa

TOK = {"py": r'"""[\s\S]*?"""|\'\'\'[\s\S]*?\'\'\'|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|#[^\n]*',
       "f": r'"[^"\n]*"|\'[^\'\n]*\'|![^\n]*|^#[^\n]*'}
SWAPS = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "and": ["or"],
         "or": ["and"], "True": ["False"], "False": ["True"], "max": ["min"], "min": ["max"], "append": [], "/=": ["=="], "**": ["*"], "is not": ["is"],
         ".and.": [".or."], ".or.": [".and."], ".true.": [".false."], ".false.": [".true."], "+=": ["-="], "-=": ["+="], "not in": ["in"],
         "row": ["col"], "zeros": ["ones"], "argmin": ["argmax"], "argmax": ["argmin"], "sin": ["cos"], "sorted": ["list"], "floor": ["ceil"], "ceil": ["floor"],
         ".not.": [""], "continue": ["break"], "break": ["continue"]}
WORD = re.compile(r"\bis not\b|\bnot in\b|\.and\.|\.or\.|\.true\.|\.false\.|\.not\.|[A-Za-z_]\w*|(?<![\w.])\d+\.?\d*(?:[eE][-+]?\d+)?(?:_wp)?|\*\*|<=|>=|==|!=|/=|\+=|-=|[-+*/<>]|\d+")


def mutants(path, names):
    text = io.open(path, encoding="utf-8").read()
    lang = "f" if path.endswith(("F90", "f90")) else "py"
    skip = [m.span() for m in re.finditer(TOK[lang], text, re.M)]
    lines = text.split("\n")
    allowed = None
    if names:
        allowed = set()
        for n in names:
            for i, line in enumerate(lines):
                if lang == "py" and re.match(r"\s*(cp|c)?def\b.*\b%s\(" % re.escape(n), line):
                    ind = len(line) - len(line.lstrip())
                    j = i + 1
                    while j < len(lines) and (not lines[j].strip() or len(lines[j]) - len(lines[j].lstrip()) > ind or lines[j].lstrip().startswith(")")):
                        j += 1
                    allowed |= set(range(i, j))
                if lang == "f" and re.match(r"\s*(?!end)[\w ()=]*\b(subroutine|function)\s+%s\b" % re.escape(n), line, re.I):
                    j = i + 1
                    while j < len(lines) and not re.match(r"\s*end (subroutine|function) %s\b" % re.escape(n), lines[j], re.I):
                        j += 1
                    allowed |= set(range(i, j))
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line) + 1)
    import bisect
    out = []

    def ok(pos):
        k = bisect.bisect_right(starts, pos) - 1
        line = lines[k].strip()
        if allowed is not None and k not in allowed:
            return False
        if any(a <= pos < b for a, b in skip):
            return False
        return not re.match(r"(from|import|def|class|use|subroutine|implicit|@|__|print|if __name__|end\b|private|public|type\b|raise|logger)", line)
    for m in WORD.finditer(text):
        w, p = m.group(0), m.start()
        if not ok(p):
            continue
        new = list(SWAPS.get(w, []))
        if re.match(r"\d+$", w):
            new = [str(int(w) + 1)] + ([str(int(w) - 1)] if int(w) > 0 else [])
        elif re.match(r"[A-Za-z_]\w*[12]$", w):
            new = [w[:-1] + ("2" if w[-1] == "1" else "1")]
        for x in new:
            out.append((path, p, w, x))
    for k, line in enumerate(lines):
        s = line.strip()
        p = starts[k] + len(line) - len(line.lstrip())
        if not s or not ok(p) or s.endswith(("\\", ",", "(", "[", "{", "&")) or (k and lines[k - 1].rstrip().endswith(("\\", ",", "(", "&"))):
            continue
        if lang == "py" and (re.match(r"[\w.\[\], :()*+-]+ [-+*/]?= ", s) or re.match(r"[\w.]+\(.*\)$", s)) and s.count("(") == s.count(")") and s.count("[") == s.count("]"):
            out.append((path, p, s, "pass"))
        if lang == "f" and (re.match(r"[\w%(), :]+ = ", s) or s.startswith("call ")) and s.count("(") == s.count(")"):
            out.append((path, p, s, "continue"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("files", nargs="+")
    ap.add_argument("--max", type=int, default=60)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    chk = CHECKS[a.prop]
    base = util.scratch("mut-")
    builds = chk.get("builds", ("python",))
    emitted = []
    for st in chk.get("models", ()):
        emitted += util.model_check(base, st["module"], st["cfg"], workers=8, heap="12g")["emit"]
    repo = os.path.join(base, "repo")
    os.makedirs(repo)
    subprocess.check_call("git -C %s archive HEAD | tar x -C %s" % (util.REPO, repo), shell=True)
    util.REPO = repo
    shared = os.path.join(base, "shared")
    os.makedirs(shared)
    if "python" in builds:
        util.python_tree(shared, ext=chk.get("ext", True))
    todo = []
    for spec in a.files:
        f, _, names = spec.partition(":")
        todo += mutants(os.path.join(repo, f), [n for n in names.split(",") if n])
    total = len(todo)
    random.Random(a.seed).shuffle(todo)
    todo = todo[:a.max]
    print("%d changes, %d tried" % (total, len(todo)), flush=True)
    import threading
    lock = threading.Lock()

    def one(job):
        k, (path, p, old, new) = job
        w = os.path.join(base, "m%d" % k)
        os.makedirs(w)
        text = io.open(path, encoding="utf-8").read()
        line = text.count("\n", 0, p) + 1
        mutated = text[:p] + new + text[p + len(old):]
        what = "%s:%d  %s -> %s   | %s" % (os.path.relpath(path, repo).split("/")[-1], line, old, new, text.split("\n")[line - 1].strip()[:150])
        verdict = None
        try:
            r2 = os.path.join(w, "repo")
            shutil.copytree(repo, r2)
            with io.open(os.path.join(r2, os.path.relpath(path, repo)), "w", encoding="utf-8") as f:
                f.write(mutated)
            env = util.base_env(w)
            try:
                with lock:
                    util.REPO = r2
                    if "python" in builds:
                        util.python_tree(w, ext=chk.get("ext", True) and path.endswith(("pyx",)))
                    if "fortran" in builds:
                        util.fortran_tree(w, chk.get("fortran_programs", ()))
                if "python" in builds and not path.endswith("pyx"):
                    util.run([util.PY, "-m", "py_compile", os.path.join(w, "tree", os.path.relpath(path, repo))], env=env)
                    for d, _, ns in os.walk(os.path.join(shared, "tree")):
                        for n in ns:
                            if n.endswith(".so"):
                                to = os.path.join(w, "tree", os.path.relpath(d, os.path.join(shared, "tree")))
                                os.makedirs(to, exist_ok=True)
                                shutil.copy(os.path.join(d, n), to)
            except util.CheckError:
                verdict = "BROKEN"
            if verdict is None:
                verdict = "SURVIVED"
                for j, dr in enumerate(chk["drivers"]):
                    out = os.path.join(w, "events%d.ndjson" % j)
                    rc, txt = check.driver(w, dr["driver"], builds, emitted, "quick", 1, out, [a.prop] + list(dr.get("args", ())), timeout=500)
                    recs = []
                    if os.path.exists(out):
                        with open(out) as f:
                            recs = [json.loads(x) for x in f if x.endswith("\n")]
                    if rc != 0 or not recs:
                        verdict = "NOANSWER " + " / ".join(txt.strip().split("\n")[-2:])[:300]
                        break
                    fails, _ = util.validate(w, dr["trace"], recs, a.prop, chunk=dr.get("chunk", 250), consts=dr.get("consts", ""), workers=2)
                    if fails:
                        verdict = "KILLED %s x%d" % (sorted({c[:40] for _, c in fails}), len(fails))
                        break
        except util.CheckError as e:
            verdict = "NOANSWER " + str(e)[:200].replace("\n", " ")
        except Exception as e:
            verdict = "ERROR %r" % e
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print("%s\t%s" % (verdict, what), flush=True)
        return verdict.split()[0]
    with ThreadPoolExecutor(a.jobs) as ex:
        vs = list(ex.map(one, enumerate(todo)))
    print({v: vs.count(v) for v in sorted(set(vs))})


if __name__ == "__main__":
    main()
