"""Decides one property: check.py Cxx [--tier quick|thorough] or check.py --replay FILE.

1. TLC explores the specification's models of the property (models.py).
2. The implementation is run on behaviours generated from the specification (corpus.py).
3. TLC judges every recorded behaviour against the specification (kinds.py, trace.py).
4. Corrupted recordings must be rejected (canaries), or the run counts for nothing.
Exit 0: held; 1: VIOLATION; anything else: the check itself failed."""
import argparse
import concurrent.futures
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import driver  # noqa: E402
from common import Machinery, SEED, VERIF  # noqa: E402
import kinds  # noqa: E402
import models  # noqa: E402

LEVEL = "model_checking"


def run_models(prop, tier):
    """Explores every model of the property; [(note, result)]."""
    out = []
    ms = models.models(prop, tier)
    budget = 840 if tier == "quick" else 6 * 3600
    for m in ms:
        res = m.run(timeout=budget)
        if m.expect is None:
            res.require_ok()
        elif res.invariant != m.expect:
            raise Machinery("%s: %s was expected to be reachable\n%s" % (prop, m.expect, res.out[-1500:]))
        if m.least and res.states < m.least:
            raise Machinery("%s: only %d states in %s" % (prop, res.states, m.note))
        out.append((m, res))
    return out


def known(prop):
    path = os.path.join(VERIF, "known-findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def evidence(prop, tier, wall, cov, violations, assumptions):
    path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": SEED, "level": LEVEL, "coverage": cov, "assumptions": assumptions,
                   "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def save_replay(prop, payload):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump(payload, f, indent=1)
        f.write("\n")
    return os.path.relpath(path, VERIF)


def check(prop, tier):
    t0 = time.time()
    kind = kinds.of(prop)
    driver.api()
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        exploring = ex.submit(run_models, prop, tier)
        jobs, generated = kind.jobs(prop, tier)
        observed = kind.observe(jobs)
        verdicts = kind.judge(prop, observed)
        explored = exploring.result()
    findings = known(prop)
    listed = [i for i, _ in verdicts.fails if kind.listed(observed[i], findings)]
    fails = [(i, c) for i, c in verdicts.fails if i not in set(listed)]
    for f in findings:
        if kind.still_fails(f):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if not fails:
        kind.canaries(prop, observed)
    states = sum(r.states for _, r in explored) + verdicts.states + generated.states
    transitions = sum(r.transitions for _, r in explored) + verdicts.transitions + generated.transitions
    cov = {
        "states": states, "transitions": transitions, "traces_validated_against_impl": verdicts.cases,
        "models": [{"module": m.module, "bounds": m.note, "states": r.states, "transitions": r.transitions, "wall_s": round(r.wall, 1),
                    **({"reached": m.expect} if m.expect else {})} for m, r in explored],
        "conformance": {"module": kind.module, "states": verdicts.states, "transitions": verdicts.transitions,
                        **kind.statistics(observed)},
        "canaries_rejected": kind.canaries_rejected,
        "samples": kind.samples(observed),
    }
    if fails:
        i, clauses = min(fails, key=lambda x: kind.size(observed[x[0]]))
        ob, clauses = kind.shrink(prop, observed[i], clauses)
        path = save_replay(prop, {"property": prop, "clauses": clauses, "case": kind.describe(ob), "failing_cases": len(fails),
                                  "others": [kind.describe(observed[j], brief=True) for j, _ in fails[:20]],
                                  "replay_with": "%s harness/check.py --replay evidence/replay/%s.json" % (common.PY, prop)})
        cov["violated_clauses"] = sorted({x.split("@")[0] for _, c in fails for x in c})[:20]
        evidence(prop, tier, time.time() - t0, cov, len(fails), kind.assumptions)
        print("%d of %d recorded behaviours are not allowed by the specification; %s" % (len(fails), verdicts.cases, ", ".join(cov["violated_clauses"])))
        print("smallest: %s" % kind.brief(ob))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    evidence(prop, tier, time.time() - t0, cov, 0, kind.assumptions)
    print("%s held: %d states explored, %d behaviours of the code validated, %.0f s" % (prop, states, verdicts.cases, time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    kind = kinds.of(r["property"])
    driver.api()
    ob = kind.again(r["case"])
    v = kind.judge(r["property"], [ob])
    print(json.dumps(kind.describe(ob), indent=1))
    for _, c in v.fails:
        print("rejected: " + ", ".join(c))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("allowed by the specification")
    return 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", choices=("quick", "thorough"))
    p.add_argument("--replay")
    a = p.parse_args()
    if a.replay:
        return replay(a.replay)
    tier = a.tier or (common.TIER if common.TIER in ("quick", "thorough") else "quick")
    return check(a.property, tier)


if __name__ == "__main__":
    try:
        code = main()
    except Machinery as ex:
        print("ERROR of the check: %s" % ex)
        code = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        code = 2
    sys.stdout.flush()
    os._exit(code)
