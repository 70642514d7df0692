"""Batches of simulated runs over worker processes, minimisation, replay files, evidence."""
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

from .common import pick_strategy
from .kernel import Chooser, HarnessError, WallTimeout

FAMILIES = {}
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def family(name):
    if name not in FAMILIES:
        import importlib
        FAMILIES[name] = importlib.import_module("sim." + {"build": "builds"}.get(name, name))
    return FAMILIES[name]


def mix(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:7], "big")


def make(fam, prof, seed):
    """(scenario, schedule seed, strategy) of one seed."""
    rng = random.Random(seed)
    scn = family(fam).gen(rng, prof)
    st = pick_strategy(rng)
    scn.setdefault("cfg", {})["line"] = bool(st.get("line_gap"))
    return scn, rng.randrange(1 << 30), st


def execute(scn, seed=None, strategy=None, script=None):
    fam = family(scn["family"])
    ch = Chooser(seed, script=script, strategy=strategy)
    return fam.run(copy.deepcopy(scn), ch)


# ------------------------------------------------------------------------------------------------------------------ worker
class Batch:
    """Everything one worker has seen, in a form that can be added up."""

    def __init__(self):
        self.runs = 0
        self.nontrivial = 0
        self.digests = set()
        self.sigs = set()
        self.stats = {}
        self.probes = {}
        self.sim_ns = 0
        self.points = 0
        self.skipped = {}
        self.known = {}
        self.errors = []
        self.hits = []            # (index, profile, seed, prop, what, detail)
        self.other = {}
        self.twice = 0
        self.unstable = []
        self.strategies = {}
        self.samples = []

    def merge(self, o):
        self.runs += o.runs
        self.nontrivial += o.nontrivial
        self.digests |= o.digests
        self.sigs |= o.sigs
        for a in ("stats", "probes", "skipped", "known", "other", "strategies"):
            d = getattr(self, a)
            for k, v in getattr(o, a).items():
                d[k] = d.get(k, 0) + v
        self.sim_ns += o.sim_ns
        self.points += o.points
        self.errors += o.errors
        self.hits += o.hits
        self.twice += o.twice
        self.unstable += o.unstable
        self.samples += o.samples


def signature(rep):
    """Which steps and commands began and ended in which order: the interleaving as far as it can be seen from outside."""
    h = hashlib.sha256()
    for e in rep.events:
        t = e["ev"]
        if t in ("cmd_start", "cmd_end"):
            h.update(("%s %s;" % (t, e["outs"])).encode())
        elif t in ("step_start", "step_end"):
            h.update(("%s %s;" % (t, e["name"])).encode())
        elif t in ("interrupt_delivered", "process_killed", "fs_fault", "stdout_fault", "process", "power_loss"):
            h.update(t.encode())
    return h.digest()[:8]


def one(b, prop, idx, fam, prof, seed, known_ids, recheck):
    scn, s, st = make(fam, prof, seed)
    try:
        rep = execute(scn, s, st)
    except (WallTimeout, HarnessError) as e:
        b.errors.append("seed %d: %s: %s" % (seed, type(e).__name__, e))
        return False
    except Exception:
        b.errors.append("seed %d: %s" % (seed, traceback.format_exc()))
        return False
    b.runs += 1
    b.strategies[st["kind"]] = b.strategies.get(st["kind"], 0) + 1
    if rep.skipped:
        b.skipped[rep.skipped] = b.skipped.get(rep.skipped, 0) + 1
    d = bytes.fromhex(rep.digest)[:8]
    if rep.nontrivial:
        b.nontrivial += 1
        b.digests.add(d)
        b.sigs.add(signature(rep))
    for k, v in rep.stats.items():
        b.stats[k] = b.stats.get(k, 0) + v
    for k, v in rep.probes.items():
        b.probes[k] = b.probes.get(k, 0) + v
    b.sim_ns += rep.sim_ns
    b.points += rep.points
    if len(b.samples) < 1 and rep.nontrivial:
        b.samples.append({"seed": seed, "profile": prof, "scenario": scn, "strategy": st, "decisions": rep.points})
    if recheck:
        b.twice += 1
        r2 = execute(scn, None, None, rep.taken)
        if r2.digest != rep.digest:
            b.unstable.append(seed)
    bad = False
    for p, kid, what in rep.known:
        if p == prop:
            if kid in known_ids:
                b.known[kid] = b.known.get(kid, 0) + 1
            else:
                b.hits.append((idx, fam, prof, seed, p, kid, str(what)))
                bad = True
    for v in rep.violations:
        if v.prop == prop:
            b.hits.append((idx, fam, prof, seed, v.prop, v.what, v.detail))
            bad = True
        else:
            k = "%s %s" % (v.prop, v.what)
            b.other[k] = b.other.get(k, 0) + 1
    return bad


def worker(wfd, jobs, prop, known_ids, deadline, every):
    b = Batch()
    try:
        gc.disable()
        n = 0
        for idx, fam, prof, seed in jobs:
            if time.monotonic() > deadline:
                break
            n += 1
            bad = one(b, prop, idx, fam, prof, seed, known_ids, n % every == 1)
            if n % 15 == 0:
                gc.collect()
            if bad or len(b.errors) > 5:
                break
    except BaseException:
        b.errors.append(traceback.format_exc())
    data = pickle.dumps(b)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(wfd, data):]
    os._exit(0)


def run_batch(jobs, prop, known_ids, seconds, nworkers=None, every=40, patience=8.0):
    """Run the jobs on worker processes; stops early once a violation of prop is seen."""
    from .proc import setup
    setup()
    for _, fam, _, _ in jobs:
        family(fam)
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    deadline = time.monotonic() + seconds
    kids = {}
    total = Batch()
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        mine = jobs[w::nworkers]
        if not mine:
            continue
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for o in kids:
                os.close(o)
            worker(wr, mine, prop, known_ids, deadline, every)
        os.close(wr)
        kids[r] = [pid, bytearray()]
    grace = deadline + 120
    while kids:
        rd, _, _ = select.select(list(kids), [], [], 1.0)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                kids[fd][1] += chunk
                continue
            pid, buf = kids.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", bytes(buf[:8]))[0]:
                total.errors.append("worker died")
                continue
            b = pickle.loads(bytes(buf[8:]))
            total.merge(b)
            if b.hits:
                grace = min(grace, time.monotonic() + patience)
        if time.monotonic() > grace:
            if not total.hits:
                total.errors.append("worker did not finish in time")
            for fd in list(kids):
                os.kill(kids[fd][0], signal.SIGKILL)
                os.waitpid(kids[fd][0], 0)
                os.close(fd)
                del kids[fd]
    return total


# --------------------------------------------------------------------------------------------------------------- minimising
def fails(scn, prop, what, seeds, strategies, known_ids=()):
    """A (seed, strategy, report) under which the scenario still breaks the property in the same way."""
    for s, st in zip(seeds, strategies):
        try:
            rep = execute(scn, s, st)
        except Exception:
            continue
        if hit(rep, prop, what):
            return s, st, rep
    return None


def hit(rep, prop, what):
    for v in rep.violations:
        if v.prop == prop and (what is None or v.what == what):
            return v
    for p, kid, w in rep.known:
        if p == prop and kid == what:
            return (p, kid, w)
    return None


def minimise(scn, seed, st, prop, what, seconds=40.0):
    """Shrink the scenario, then the schedule."""
    end = time.monotonic() + seconds
    fam = family(scn["family"])
    best = scn
    rep = execute(scn, seed, st)
    if not hit(rep, prop, what):
        return None
    tried = 0
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for cand in fam.shrink(best):
            if time.monotonic() > end:
                break
            tried += 1
            if tried % 20 == 0:
                gc.collect()
            st2 = dict(st)
            cand.setdefault("cfg", {})["line"] = bool(st2.get("line_gap")) and best["cfg"].get("line")
            r = fails(cand, prop, what, [seed, 1, 2, 3, 4], [st2, {"kind": "fifo"}, {"kind": "uniform"}, {"kind": "uniform"}, st2])
            if r is not None:
                best, (seed, st, rep) = cand, r
                changed = True
                break
    # schedule: as few deviations from "carry on" as possible
    taken = dict(rep.taken)
    base = None
    try:
        r0 = execute(best, script={})
        if hit(r0, prop, what):
            taken, base = {}, r0
    except Exception:
        pass
    if base is None:
        r0 = execute(best, script=taken)
        if not hit(r0, prop, what):
            return {"scenario": best, "decisions": taken, "report": rep, "tried": tried, "seed": seed, "strategy": st}
        base = r0
        n = 2
        keys = sorted(taken)
        while len(keys) >= 1 and time.monotonic() < end + seconds / 2:
            size = max(1, len(keys) // n)
            done = False
            for i in range(0, len(keys), size):
                sub = keys[:i] + keys[i + size:]
                tried += 1
                try:
                    r = execute(best, script={k: taken[k] for k in sub})
                except Exception:
                    continue
                if hit(r, prop, what):
                    keys, base, done = sub, r, True
                    n = max(2, n - 1)
                    break
                if time.monotonic() > end + seconds / 2:
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(keys), n * 2)
        taken = {k: taken[k] for k in keys}
    return {"scenario": best, "decisions": taken, "report": base, "tried": tried, "seed": seed, "strategy": st}


def in_child(fn, seconds):
    """fn() in a forked child (its result pickled), None when it fails or takes too long."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
            data = struct.pack("<Q", len(data)) + data
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + seconds
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", bytes(buf[:8]))[0]:
        return pickle.loads(bytes(buf[8:]))
    return None


def minimise_guarded(scn, seed, st, prop, what, seconds):
    """Minimise in a child; when that goes wrong, the failing run as it was."""
    res = in_child(lambda: minimise(scn, seed, st, prop, what, seconds), seconds * 2 + 60)
    if res is not None:
        return res

    def plain():
        rep = execute(scn, seed, st)
        if not hit(rep, prop, what):
            return None
        return {"scenario": scn, "decisions": dict(rep.taken), "report": rep, "tried": 0, "seed": seed, "strategy": st}
    return in_child(plain, 120)


def directed(fam, maker, prop, kid):
    """Does the directed scenario of a recorded finding still show it?"""
    def go():
        from .proc import setup
        setup()
        for scn in getattr(family(fam), maker)():
            try:
                rep = execute(scn, script={})
            except Exception:
                continue
            if any(p == prop and k == kid for p, k, _ in rep.known):
                return "shown"
        return "not shown"
    return in_child(go, 120) == "shown"


def trace(rep, limit=400):
    out = []
    for e in rep.events:
        if e["ev"] in ("print", "cmd_out"):
            continue
        out.append(" ".join(["%d" % e["seq"], "+%.6fs" % ((e["t"] - rep.events[0]["t"]) / 1e9), e["ev"]] +
                            ["%s=%s" % (a, (repr(b) if len(repr(b)) < 160 else repr(b)[:160] + "...")) for a, b in e.items() if a not in ("seq", "t", "ev")]))
        if len(out) >= limit:
            out.append("...")
            break
    return out


def save_replay(prop, what, detail, res, origin, hashseed):
    rep = res["report"]
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "violation": what, "detail": detail, "family": res["scenario"]["family"], "scenario": res["scenario"],
            "decisions": {str(k): v for k, v in sorted(res["decisions"].items())}, "digest": rep.digest, "hashseed": hashseed, "origin": origin,
            "how": "python3 check.py --replay <this file>", "trace": trace(rep)}
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(body["scenario"], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path
