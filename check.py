#!/usr/local/bin/python3
"""Decide one property by seeded simulation:  check.py C01 [quick|thorough]   |   check.py --replay FILE"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HASHSEED = "0"
sys.dont_write_bytecode = True


def reexec(hashseed):
    """String hashes are part of the execution (set order): fix them."""
    if os.environ.get("PYTHONHASHSEED") != hashseed or sys.flags.hash_randomization and hashseed == "0":
        os.environ["PYTHONHASHSEED"] = hashseed
        os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:])


def load_known():
    """id -> property of the recorded findings (lines "KNOWN-FINDING: property=<id> <finding id>: <text>")."""
    out = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("finding: property="):
            head, text = line[len("finding: property="):].split(" ", 1)
            kid, text = text.split(": ", 1)
            out[kid] = (head, text.strip())
    return out


def replay(path):
    body = json.load(open(path))
    reexec(body.get("hashseed", HASHSEED))
    sys.path.insert(0, HERE)
    from sim import engine
    rep = engine.execute(body["scenario"], script={int(k): v for k, v in body["decisions"].items()})
    got = engine.hit(rep, body["property"], body["violation"])
    for line in engine.trace(rep):
        print(line)
    print("digest %s (%s)" % (rep.digest, "as recorded" if rep.digest == body["digest"] else "recorded: %s" % body["digest"]))
    if got:
        print("%s: %s" % (body["property"], body["violation"]), getattr(got, "detail", ""))
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("not reproduced: the code under test differs from the one recorded" if rep.digest != body["digest"] else "not reproduced")
    return 0


def jobs_for(prop, plan, n, seed, mix):
    """Deterministic list of (index, family, profile, seed), the parts interleaved by their shares."""
    parts = plan["parts"]
    total = sum(p[1] for p in parts)
    out = []
    acc = [0] * len(parts)
    for i in range(n):
        for j, p in enumerate(parts):
            acc[j] += p[1]
        j = max(range(len(parts)), key=lambda q: acc[q])
        acc[j] -= total
        out.append((i, parts[j][0], parts[j][2], mix(seed, prop, i)))
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    reexec(HASHSEED)
    sys.path.insert(0, HERE)
    from sim import engine
    from sim.plan import PLAN
    plan = PLAN[prop]
    t0 = time.monotonic()
    n = plan["runs"][0 if tier == "quick" else 1]
    n = int(os.environ.get("VERIF_RUNS", n))
    seconds = float(os.environ.get("VERIF_SECONDS", 240 if tier == "quick" else 3 * 3600))
    known = {k: v for k, v in load_known().items() if v[0] == prop}
    jobs = jobs_for(prop, plan, n, seed, engine.mix)
    # recorded findings first: each is shown by its own directed scenario
    status = 0
    kept = {}
    for kid, (_, text) in sorted(known.items()):
        fam, maker = plan.get("known", {})[kid]
        seen = engine.directed(fam, maker, prop, kid)
        kept[kid] = seen
        if seen:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, text))
        else:
            print("note: recorded finding %s does not show any more" % kid)
    b = engine.run_batch(jobs, prop, set(known), seconds)
    explored = time.monotonic() - t0
    violations = 0
    replays = []
    if b.hits:
        b.hits.sort(key=lambda h: h[0])
        done = set()
        for idx, fam, prof, s, p, what, detail in b.hits:
            if what in done or len(done) >= 3:
                continue
            done.add(what)
            violations += 1
            scn, s2, st = engine.make(fam, prof, s)
            res = engine.minimise_guarded(scn, s2, st, prop, what, 30.0 if tier == "quick" else 120.0)
            if res is None:
                print("note: seed %d (%s) did not fail again" % (s, what))
                b.errors.append("violation of seed %d did not repeat" % s)
                continue
            path = engine.save_replay(prop, what, detail, res, {"seed": s, "profile": prof, "index": idx, "VERIF_SEED": seed, "tier": tier,
                                                               "tried_while_minimising": res["tried"]}, HASHSEED)
            replays.append(path)
            print("violation: %s %s" % (what, detail))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            status = 1
    skipped = sum(b.skipped.values())
    if b.unstable:
        print("error: %d runs did not repeat exactly: %s" % (len(b.unstable), b.unstable[:5]))
    for e in b.errors[:5]:
        print("error:", e, file=sys.stderr)
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(b.stats.items()) if k.startswith("fault.")}
    fam_mod = [engine.family(f) for f in sorted({p[0] for p in plan["parts"]})]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": violations,
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": len(b.digests),
            "rule": "one run = one seed: scenario (declarations, files, history of edits, licant processes, faults) and schedule drawn from it; non-trivial = "
                    + "; or, ".join("%s: %s" % (m.__name__.rsplit(".", 1)[-1], m.RULE) for m in fam_mod) + "; distinct by the hash of the whole event log",
            "samples": b.samples[:2],
            "distinct_interleavings": len(b.sigs),
            "interleaving_measure": "hash of the order of starts and ends of steps and commands and of faults",
            "nontrivial_runs": b.nontrivial,
            "runs_per_hour": int(b.runs / max(explored, 1e-9) * 3600),
            "simulated_hours": round(b.sim_ns / 3.6e12, 3),
            "scheduling_points": b.points,
            "faults_fired": faults,
            "counters": {k: v for k, v in sorted(b.stats.items()) if not k.startswith("fault.")},
            "probes": dict(sorted(b.probes.items())),
            "strategies": dict(sorted(b.strategies.items())),
            "profiles": [{"family": p[0], "share": p[1], "profile": p[2]} for p in plan["parts"]],
            "replayed_for_determinism": b.twice, "replay_mismatches": len(b.unstable),
            "skipped": b.skipped, "harness_errors": len(b.errors),
            "known_findings": kept, "known_finding_hits_in_search": b.known,
            "observed_for_other_properties": dict(sorted(b.other.items())),
            "real_components": sorted({x for m in fam_mod for x in m.REAL}),
            "stubbed_components": sorted({x for m in fam_mod for x in m.STUB}),
            "replays": [os.path.relpath(p, HERE) for p in replays],
        },
        "assumptions": sorted({x for m in fam_mod for x in m.ASSUME}),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if status == 0:
        if len(b.unstable) > b.twice // 20 or len(b.errors) > max(2, b.runs // 50) or skipped * 2 > max(b.runs, 1) or b.runs == 0:
            print("check of %s gave no answer: %d runs, %d skipped, %d errors, %d not repeatable" % (prop, b.runs, skipped, len(b.errors), len(b.unstable)))
            return 2
        print("%s held in %d runs (%d distinct, %d interleavings), %d faults, %.1f s" % (prop, b.runs, len(b.digests), len(b.sigs), sum(faults.values()), wall))
    return status


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
