#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property on /repo's working tree. Exit 0 held, 1 violated, 2 no answer."""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fw import util                                                                                              # noqa
from fw.registry import CHECKS                                                                                   # noqa


CRASHES = (-4, -6, -7, -8, -11, 70)  # SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV, an exception out of the code


def driver(work, name, builds, scenarios, tier, seed, out, args=(), timeout=600):
    env = util.base_env(work)
    env.update(VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONPATH=os.path.join(work, "tree", "harmonisation_eiv"),
               VERIF_TREE=os.path.join(work, "tree"), VERIF_BUILD=os.path.join(work, "build"), VERIF_SPEC=util.SPEC,
               PYTHONWARNINGS="ignore")
    if os.environ.get("VERIF_DEBUG"):
        env["VERIF_DEBUG"] = "1"
    scen = out + ".scen"
    with open(scen, "w") as f:
        json.dump(scenarios, f)
    cwd = os.path.join(work, "run_" + os.path.basename(out))
    os.makedirs(cwd)
    try:
        rc, text = util.run([util.PY, "-W", "ignore", os.path.join(util.DRIVERS, name), out, scen] + list(args), cwd=cwd, env=env,
                            timeout=timeout, check=False, what="driver " + name)
    except util.CheckError as e:
        rc, text = None, str(e)
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write(text)
    return rc, text


def main(argv):
    prop = argv[0]
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = util.scratch()
    builds = chk.get("builds", ("python",))
    broken = None        # a driver that did not come to its end
    if "python" in builds:
        util.python_tree(work, ext=chk.get("ext", True))
    if "fortran" in builds:
        util.fortran_tree(work, chk.get("fortran_programs", ()))

    states = transitions = 0
    emitted, models = [], []
    for stage in chk.get("models", ()):
        cfg = stage["cfg"]
        if tier == "thorough":
            cfg = stage.get("thorough_cfg", cfg)
        if cfg is None:
            continue
        r = util.model_check(work, stage["module"], cfg, workers=8, timeout=stage.get("timeout", 700), extra=stage.get("extra", ()),
                             heap="12g")
        states += r["distinct"]
        transitions += r["generated"]
        emitted += r["emit"]
        models.append({"module": stage["module"], "distinct": r["distinct"], "generated": r["generated"],
                       "emitted": len(r["emit"]), "wall_s": round(r["wall"], 1)})

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        seed, tier = rep["seed"], rep["tier"]
    failures, traces, samples, events = [], 0, [], 0
    for k, dr in enumerate(chk["drivers"]):
        out = os.path.join(work, "events%d.ndjson" % k)
        rc, text = driver(work, dr["driver"], builds, emitted, tier, seed, out, [prop] + list(dr.get("args", ())))
        records = []
        if os.path.exists(out):
            with open(out) as f:
                records = [json.loads(x) for x in f if x.endswith("\n")]
        if rc != 0 or not records:
            broken = broken or "driver %s: exit %s\n%s" % (dr["driver"], rc, text[-5000:])
        if rc in CRASHES:        # the code ended the process
            last = records[-1] if records else {"ev": "begin"}
            failures.append({"driver": dr["driver"], "trace": dr["trace"], "clause": "%s.crash" % prop, "record": {"ev": "crash", "status": rc, "how": text[-1500:], "after": last},
                             "tag": "crash", "history": []})
        if not records:
            continue
        fails, gen = util.validate(work, dr["trace"], records, prop, chunk=dr.get("chunk", 250), consts=dr.get("consts", ""))
        states += gen
        transitions += gen
        traces += sum(1 for r in records if r["ev"] == "begin")
        events += len(records)
        rng = random.Random(seed)
        small = [r for r in records if r["ev"] != "begin" and len(json.dumps(r)) < 4000]
        samples += rng.sample(small, min(3, len(small)))
        for i, clause in fails:
            b = max([0] + [j for j in range(i + 1) if records[j]["ev"] == "begin"])
            failures.append({"driver": dr["driver"], "trace": dr["trace"], "clause": clause, "record": records[i],
                             "tag": records[i].get("tag", records[b].get("tag", "")), "history": records[b:i + 1]})

    if broken and not failures:
        raise util.CheckError(broken)

    known = [k for k in util.known_findings() if k["property"] == prop]
    shown, news = set(), []
    for f in failures:
        hit = [k for k in known if k["clause"] == f["clause"].split(":")[0] and k["tag"] == f["tag"]]
        if hit:
            if hit[0]["id"] not in shown:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
                shown.add(hit[0]["id"])
        else:
            news.append(f)

    os.makedirs(os.path.join(util.VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
                       "events_validated": events, "models": models, "samples": samples[:6],
                       "known_findings_seen": sorted(shown)},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(news)}
    with open(os.path.join(util.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if news:
        d = os.path.join(util.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "command": "python3 check.py %s --replay %s" % (prop, path),
                       "clauses": sorted({x["clause"][:200] for x in news}), "failures": news[:10]}, f, indent=1)
        for x in news[:5]:
            print("%s: clause %s at a %s event: %s" % (prop, x["clause"][:1500], x["record"]["ev"], json.dumps(x["record"])[:700]))
        print("%s: %d events violate %s" % (prop, len(news), sorted({x["clause"][:60] for x in news})))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: held on %d states, %d behaviours of the real code (%d events), %.0f s" % (prop, states, traces, events, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except util.CheckError as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
