"""Entry point of every check: runner <ID> [quick|thorough] [--replay FILE]."""
import importlib.util
import json
import os
import subprocess
import sys
import tempfile
import time
from collections import Counter

from harness.core import VERIF

NPROC = 8
WALL = {"quick": 780, "thorough": 6 * 3600}


def meta(pid):
    """The static description of a check, without importing what it tests."""
    code = (
        "import json,importlib,sys\n"
        f"m=importlib.import_module('harness.checks.{pid.lower()}')\n"
        "json.dump(dict(rule=m.RULE,assumptions=getattr(m,'ASSUMPTIONS',[]),"
        "need=getattr(m,'NEED',{}),"
        "sections=[[s.name,s.quick,s.thorough,s.shards] for s in m.SECTIONS]),open(sys.argv[1],'w'))"
    )
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, path], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        print("INCONCLUSIVE: the check could not be loaded")
        sys.exit(3)
    with open(path) as f:
        m = json.load(f)
    os.unlink(path)
    return m


def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i : i + 2]
    only_sections = None
    if "--section" in args:
        i = args.index("--section")
        only_sections = args[i + 1].split(",")
        del args[i : i + 2]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m = meta(pid)
    jobs = []
    if replay:
        with open(replay) as f:
            rep = json.load(f)
        seed, tier = rep["seed"], rep["tier"]
        v = rep["violations"][0]
        jobs.append((v["section"], 0, 1, v["case"] + 1, v["case"]))
    else:
        for name, q, t, shards in m["sections"]:
            if only_sections and name not in only_sections:
                continue
            n = q if tier == "quick" else t
            ns = shards if tier == "quick" else min(8, max(shards, n // 50 + 1))
            for s in range(ns):
                jobs.append((name, s, ns, n, None))
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.environ["VERIF_SCRATCH"] = tmp
    running, results, errors = [], [], []
    queue = list(jobs)
    k = 0
    deadline = t0 + WALL[tier]
    while queue or running:
        while queue and len(running) < NPROC:
            name, s, ns, n, only = queue.pop(0)
            out = os.path.join(tmp, f"r{k}.json")
            log = open(os.path.join(tmp, f"r{k}.log"), "wb")
            k += 1
            cmd = [sys.executable, "-W", "ignore", "-m", "harness.worker",
                   pid, tier, str(seed), name, str(s), str(ns), str(n), out]
            if only is not None:
                cmd.append(str(only))
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            running.append((p, name, s, out, log))
        time.sleep(0.02)
        for item in list(running):
            p, name, s, out, log = item
            rc = p.poll()
            if rc is None and time.time() > deadline:
                os.killpg(p.pid, 9)
                p.wait()
                rc = "timeout"
            if rc is None:
                continue
            running.remove(item)
            log.close()
            try:
                with open(out) as f:
                    results.append(json.load(f))
            except (OSError, ValueError):
                with open(log.name, "rb") as f:
                    tail = f.read()[-1500:].decode("utf8", "replace")
                errors.append(f"worker {name}/{s} ended with {rc}: {tail}")
    counters, evals, known = Counter(), Counter(), Counter()
    keys, samples, violations = set(), {}, []
    for r in results:
        counters.update(r["counters"])
        evals.update(r["evaluations"])
        known.update(r["known_hits"])
        keys.update(r["keys"])
        for s, xs in r["samples"].items():
            samples.setdefault(s, []).extend(xs)
        violations += r["violations"]
        if r["error"]:
            errors.append(r["error"])
    for name, *_ in m["sections"]:
        if not replay and not only_sections and not evals[name] and not violations:
            errors.append(f"section {name} evaluated nothing")
    if not replay and not only_sections:
        for name, least in m["need"].items():
            if counters[name] < least and not violations:
                errors.append(f"counter {name}={counters[name]} below {least}: monitor not reached")
    distinct = Counter(k.split(":")[0] for k in keys)
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(evals.values()), distinct_nontrivial=len(keys),
            rule=m["rule"],
            samples=[dict(section=s, case=x) for s, xs in samples.items() for x in xs[:2]],
            per_section={s: dict(cases=evals[s], distinct=distinct[s]) for s in evals},
            observed=dict(sorted(counters.items())),
            known_finding_hits=dict(known),
        ),
        assumptions=m["assumptions"], wall_s=round(wall, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay and not only_sections:
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", tmp])
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        kf = [e for e in json.load(f)["findings"] if e["property"] == pid and e.get("status") == "open"]
    for e in kf:
        if known[e["key"]]:
            print(f"KNOWN-FINDING: property={pid} {e['key']}: {e['what']}")
    print(f"{pid} {tier} seed={seed}: {sum(evals.values())} cases, {len(keys)} distinct, "
          f"{counters['oracle_checks']} oracle checks, {wall:.1f}s")
    if violations:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        path = os.path.join(VERIF, "out", f"replay-{pid}-{os.getpid()}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, violations=violations), f, indent=1)
        for v in violations[:5]:
            print(f"--- {v['section']}[{v['case']}] {v['kind']}: {v['message'][:1500]}")
            if os.environ.get("VERIF_VERBOSE"):
                print("\n".join(v["log"]))
                print(v["traceback"])
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if errors:
        for e in errors[:5]:
            print("INCONCLUSIVE:", e)
        sys.exit(3)
    sys.exit(0)


main()
