#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] [--replay FILE]: decide one property on /repo's working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: refuted; exit 2: inconclusive.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
SHARDS = {"quick": 6, "thorough": 8}
BUDGET = {"quick": 100.0, "thorough": 650.0}   # soft, per shard
HARD = {"quick": 780.0, "thorough": 4000.0}     # watchdog: inconclusive


def executable_lines(path):
    lines = set()
    def walk(code):
        for _, _, ln in code.co_lines():
            if ln:
                lines.add(ln)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c)
    with open(path, "rb") as f:
        walk(compile(f.read(), path, "exec"))
    return lines


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    t0 = time.monotonic()
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        man = {c["property"]: c for c in json.load(f)["checks"]}
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        props = {p["id"]: p for p in map(json.loads, filter(str.strip, f))}
    tmp = tempfile.mkdtemp(prefix="vp_")
    code = 2
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONHASHSEED="0", TMPDIR=tmp, VP_REPO=REPO, VERIF_TIER=tier)
        cache = os.path.join(tmp, "pycache")
        warm = subprocess.run([PY, os.path.join(HERE, "worker.py"), cache, "WARM"], env=env, cwd=tmp,
                              stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300)
        if warm.returncode != 0:
            print("INCONCLUSIVE: cannot import the package:\n" + warm.stderr[-3000:])
            return 2
        only = []
        if replay:
            with open(replay) as f:
                rep = json.load(f)
            v = rep["violations"][0]
            seed, tier = v["seed"], v["tier"]
            only = [f"{v['section']}:{v['index']}"]
        n = 1 if only else int(os.environ.get("VP_SHARDS", SHARDS[tier]))
        procs = []
        for i in range(n):
            out = os.path.join(tmp, f"out{i}.json")
            log = open(os.path.join(tmp, f"log{i}.txt"), "w")
            wd = os.path.join(tmp, f"cwd{i}")
            os.mkdir(wd)
            procs.append((subprocess.Popen([PY, os.path.join(HERE, "worker.py"), cache, prop, str(seed), tier, str(i), str(n), out,
                                            str(float(os.environ.get("VP_BUDGET", BUDGET[tier])))] + only,
                                           env=env, cwd=wd, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                                           start_new_session=True), out, log))
        results, problems = [], []
        tend = time.monotonic() + HARD[tier]
        for p, out, log in procs:
            try:
                p.wait(timeout=max(1.0, tend - time.monotonic()))
            except subprocess.TimeoutExpired:
                problems.append("watchdog: a worker did not finish")
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(log.name, errors="replace") as f:
                    problems.append(f"worker gave no result (exit {p.poll()}): " + f.read()[-1500:])
        for r in results:
            if r["status"] != "ok":
                problems.append(r["why"])
        violations = [v for r in results for v in r["violations"]]
        events, evals, known, samples, distinct, lines, truncated = {}, {}, {}, {}, set(), {}, []
        require = {}
        for r in results:
            for src, dst in ((r["events"], events), (r["evals"], evals), (r["known"], known)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            for k, v in r["samples"].items():
                samples.setdefault(k, [])
                if len(samples[k]) < 2:
                    samples[k].extend(v[:2 - len(samples[k])])
            distinct.update(r["distinct"])
            for fn, ls in r["lines"].items():
                lines.setdefault(fn, set()).update(ls)
            truncated += r["truncated"]
            require.update(r.get("require", {}))
        if not only:
            for k, v in require.items():
                if events.get(k, 0) < v and not violations:
                    problems.append(f"monitor reached too rarely: {k} observed {events.get(k, 0)} times, need {v}")
        anchors = props.get(prop, {}).get("anchors", {}).get("files", [])
        reach = {}
        for fn in anchors:
            p = os.path.join(REPO, fn)
            if fn.endswith(".py") and os.path.exists(p):
                ex = executable_lines(p)
                got = lines.get(fn, set()) & ex
                reach[fn] = f"{len(got)}/{len(ex)} lines executed"
        if os.environ.get("VP_SHOWMISS"):
            for fn in anchors:
                p = os.path.join(REPO, fn)
                if fn.endswith(".py") and os.path.exists(p):
                    print("MISSED", fn, sorted(executable_lines(p) - lines.get(fn, set())))
        m = man.get(prop, {})
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": m.get("level", "exploration"),
            "coverage": {
                "evaluations": sum(evals.values()),
                "distinct_nontrivial": len(distinct),
                "rule": m.get("_rule") or "Each case is generated from VERIF_SEED, section and index; it is counted as distinct by the hash of its generated workload shape, "
                        "and non-trivial when the code under test was driven and the oracle compared what was observed.",
                "samples": [f"{k}: {s}" for k, v in sorted(samples.items()) for s in v] or ["(none)"],
                "evaluations_by_section": evals,
                "observed_events": events,
                "code_reached": reach,
                "truncated_by_budget": truncated,
                "shards": n,
                "known_findings_seen": known,
                "inconclusive": problems,
            },
            "assumptions": ["CPython 3.12, mcpyrate 3.6.4 as installed in /opt/venv",
                            "verdict covers the executions produced by this run only"],
            "wall_s": round(time.monotonic() - t0, 2),
            "violations": len(violations),
        }
        if not only:
            with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
                json.dump(evidence, f, indent=1)
        try:
            with open(os.path.join(HERE, "known_findings.json")) as f:
                kf = {e["key"]: e["what"] for e in json.load(f).get("findings", []) if e["property"] == prop}
        except FileNotFoundError:
            kf = {}
        for k, what in kf.items():
            print(f"KNOWN-FINDING: property={prop} {what} (seen {known.get(k, 0)} times)")
        if violations:
            rp = os.path.join(evdir, f"{prop}.replay.json")
            if not only:
                with open(rp, "w") as f:
                    json.dump({"property": prop, "violations": violations}, f, indent=1)
            for v in violations[:5]:
                print(f"  {v['section']}#{v['index']} [{v['kind']}] {v['msg']}")
                for k, x in v["witness"].items():
                    print(f"      {k}: {x}")
                for nt in v["notes"]:
                    print(f"      note: {nt}")
            print(f"VIOLATION property={prop} replay={replay or rp}")
            code = 1
        elif problems:
            for p in problems[:5]:
                print("INCONCLUSIVE:", p)
            code = 2
        else:
            print(f"OK property={prop} tier={tier} seed={seed} evaluations={sum(evals.values())} distinct={len(distinct)} "
                  f"wall={evidence['wall_s']}s" + (f" truncated={truncated}" if truncated else ""))
            code = 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
