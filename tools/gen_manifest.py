"""Write MANIFEST.json from the plan."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.plan import PLAN      # noqa

TECH = "deterministic simulation of whole licant processes with fault injection, seeded schedule search"
NOTE = {}
NOTE["C01"] = "Every start of a step is compared with the ends of everything it depends on in the declared graph; random graphs, histories, spellings, durations and preemptions."
NOTE["C02"] = "Steps executed are compared with the out-of-date set of a reference model of the declarations and the file times before the build."
NOTE["C03"] = "Deadlock and endless spinning are detected exactly: no runnable entity and no timer, or a step bound; termination is claimed within that bound of scheduling points."
NOTE["C04"] = "Starts after a failure are judged at quiescent points, so a start already under way is not blamed."
NOTE["C05"] = "Result value and exit status against what the steps did, for failing commands, functions, spawns and file operations, and for no failures at all."
NOTE["C06"] = "Number of running steps at every moment; at quiescent points no ready step may wait for a free job. The standard library's pool counts busy threads as idle in one race; such points are recognised from the pool itself and not judged."
NOTE["C07"] = "Contents after each successful build against a clean build by the reference model, over histories of edits, failures and processes."
NOTE["C08"] = "Every executed step must be out of date by the reference model."
NOTE["C09"] = "Kills, interrupts, failures and disk errors at seeded points, then builds that must end in the clean-build state. One recorded finding (torn output after a hard kill)."
NOTE["C10"] = "Tree and modification times before and after each operation."
NOTE["C11"] = "Every block of bytes a command wrote must appear in the relayed output exactly once, in one piece."
NOTE["C12"] = "Projects of C/C++ modules over a simulated compiler that resolves #include, #ifdef, -I and -D; objects hold what was read, so a stale one differs from the clean build. Shadowing headers and removed sources are not generated; moc and uic are simulated, too."
NOTE["C13"] = "Directories appear from outside at seeded mkdir calls; directories made must be needed."
NOTE["C14"] = "licant-libs processes killed at seeded points, disk errors, full disks and power cuts with a journalled disk model; afterwards the registry must read as before or after the update."
NOTE["C15"] = "Histories of licant-libs and script processes against a dictionary as reference model; faulted operations may report failure but not change anything else."
NOTE["C16"] = "Installations declared at random over a simulated root and home, against a model of what each declares; uninstall must remove that and nothing else. A hard kill of licant during a write is left to C09."
NOTE["C17"] = "SIGINT at seeded scheduling points, commands that die from it or ignore it."
NOTE["C18"] = "Whatever is wrong in a process with several operations and right when each has a process of its own."
NOTE["C30"] = "Random graphs with one cycle, self-dependency or unknown name, through every entry point, alone and in sessions that declare the fault late and mend it again; nothing may run. What an unrelated unusable part of the graph does to a request is not judged."
NOTE["C19"] = "Two or three licant-libs processes at once, each with its own copy of licant's modules, arguments and process number, interleaved at every system call (in part of the runs at every line); both registries are compared with the states reachable by any order after every change of the file system."
NOTE["C34"] = "Random trees of scripts that execute each other, include libraries (also in cycles, through local tunnels) and fail, against a model that evaluates the same scripts; read errors, interrupts, several runs with changed scripts."
NOTE["C31"] = "Random libraries of modules over scripts in several directories, against a model of resolution; the order among collected modules is not judged."
NOTE["C32"] = "Command lines of the simulated tools against a model of the declared options; repeated words count once, the order of what comes through mdepends is free. Cyclic include_modules and options of the wrong kind in modules that are only included are not generated."
NOTE["C33"] = "Random words against a model of which call they ask for. How argparse reads options between words, and the inherited update actions of sets and files, are not judged."
NA = {}


def main():
    checks = []
    for p in sorted(PLAN):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": TECH, "level": "exploration", "level_note": NOTE[p] + " Assurance: no violation in the seeded runs counted in the evidence; nothing is proved."})
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 12))'", "checks": checks,
         "not_applicable": [{"property": a, "reason": b} for a, b in sorted(NA.items())],
         "notes": "No hooks in /repo: all seams are replaced from outside. known_findings.txt lists recorded and repaired defects. Replay: python3 check.py --replay <file>."}
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    missing = [p for p in props if p not in PLAN and p not in NA]
    for p in missing:
        m["not_applicable"].append({"property": p, "reason": "Not claimed yet: its scenario family is still being written."})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
