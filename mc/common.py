"""Runner: enumerates the cases of a check's families completely, runs each one on
the real code in parallel worker processes, and writes the evidence file."""
import array
import hashlib
import itertools
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_SECONDS = 30          # a single case takes milliseconds; beyond this it hangs
STALL_SECONDS = 240            # a worker that makes no progress at all


class Bad(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """Raised in a case that does not come to an end."""


def _on_timer(signum, frame):
    raise Hang()


# -------------------------------------------------------------------- the target
def load():
    """Import the code under test from the working tree, never from stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-nopyc-%d" % os.getpid())
    os.environ.setdefault("CI", "true")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import atlas_doc_parser
    where = os.path.dirname(os.path.abspath(atlas_doc_parser.__file__))
    if where != os.path.join(os.path.abspath(REPO), "atlas_doc_parser"):
        raise RuntimeError("imported the wrong tree: " + where)
    import logging
    log = logging.getLogger("atlas_doc_parser")
    log.addHandler(logging.NullHandler())
    log.propagate = False
    import atlas_doc_parser.api as api
    return api


# ---------------------------------------------------------------------- families
class Family:
    def __init__(self, name, gen, run, about="", state=None, limit=CASE_CPU_SECONDS):
        """gen(tier): iterator of JSON-able cases.  run(case, ctx): raises Bad.
        state(case): what identifies a state (default: the case itself)."""
        self.name, self.gen, self.run, self.about, self.state = name, gen, run, about, state
        self.limit = limit        # CPU seconds for one case


class Ctx:
    """What a case may report while it runs."""

    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed
        self.steps = 0            # calls into the code under test
        self.extra_states = 0     # states visited inside a case (explorers)
        self.extra_runs = 0       # executions inside a case (explorers)
        self.outcomes = set()
        self.notes = {}

    def step(self, n=1):
        self.steps += n

    def outcome(self, o):
        self.outcomes.add(h64(o))

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n


def h64(x):
    if not isinstance(x, bytes):
        if not isinstance(x, str):
            x = json.dumps(x, sort_keys=True, ensure_ascii=True, default=repr)
        x = x.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=True, default=repr)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def run_case(fam, case, ctx):
    """None if the property held, otherwise the message."""
    signal.setitimer(signal.ITIMER_PROF, fam.limit)
    try:
        fam.run(case, ctx)
        return None
    except Bad as e:
        return str(e)
    except Hang:
        return "did not come to an end within %d s of CPU time\n%s" % (fam.limit, traceback.format_exc()[-1500:])
    except Exception as e:
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


# ----------------------------------------------------------------------- workers
def case_key(fam, case):
    return "%016x" % h64([fam.name, case])


def _worker(fams, tier, seed, w, nw, out_path, progress, stop, known):
    signal.signal(signal.SIGPROF, _on_timer)
    res = {"fam": {}, "bad": None, "known": []}
    try:
        for fi, fam in enumerate(fams):
            ctx = Ctx(tier, seed)
            seen = array.array("Q")
            n = 0
            samples = []
            for i, case in enumerate(fam.gen(tier)):
                if ((i * 2654435761) >> 9) % nw != w:
                    continue
                bad_fi, bad_i = stop[0], stop[1]
                if (fi, i) > (bad_fi, bad_i):
                    break
                progress[2 * w] = fi
                progress[2 * w + 1] = i
                msg = run_case(fam, case, ctx)
                n += 1
                seen.append(h64(fam.state(case) if fam.state else case))
                if n in (1, 50, 500) and len(samples) < 3:
                    samples.append(case)
                if msg is not None and known and case_key(fam, case) in known:
                    res["known"].append(case_key(fam, case))
                elif msg is not None:
                    res["bad"] = (fi, i, case, msg)
                    if (fi, i) < (stop[0], stop[1]):
                        stop[0], stop[1] = fi, i
                    break
            res["fam"][fam.name] = dict(n=n, steps=ctx.steps, xs=ctx.extra_states, xr=ctx.extra_runs,
                                        seen=seen.tobytes(), outcomes=list(ctx.outcomes)[:200000],
                                        notes=ctx.notes, samples=samples)
            if res["bad"]:
                break
        progress[2 * w] = 1 << 30
    except BaseException:
        res["error"] = traceback.format_exc()
    with open(out_path, "wb") as f:
        pickle.dump(res, f)


def _shared(n):
    import mmap
    m = mmap.mmap(-1, 8 * n)
    return memoryview(m).cast("q")


def explore(fams, tier, seed, workers, known=()):
    """Run everything; returns (per-family results, violation or None, error or None)."""
    tmp = tempfile.mkdtemp(prefix="verif-mc-")
    progress, stop = _shared(2 * workers), _shared(2)
    stop[0], stop[1] = 1 << 40, 0
    pids = {}
    sys.stdout.flush()
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                _worker(fams, tier, seed, w, workers, os.path.join(tmp, "r%d" % w), progress, stop, known)
                code = 0
            finally:
                os._exit(code)
        pids[pid] = w
    last = {w: (None, time.monotonic()) for w in range(workers)}
    stalled = None
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid:
            w = pids.pop(pid, None)
            continue
        now = time.monotonic()
        for pid, w in pids.items():
            p = (progress[2 * w], progress[2 * w + 1])
            if last[w][0] != p:
                last[w] = (p, now)
            elif now - last[w][1] > STALL_SECONDS:
                stalled = p
        if stalled:
            for pid in pids:
                os.kill(pid, signal.SIGKILL)
            for pid in list(pids):
                os.waitpid(pid, 0)
            pids = {}
            break
        time.sleep(0.01)
    per, bad, error = {}, None, None
    for w in range(workers):
        path = os.path.join(tmp, "r%d" % w)
        if os.path.exists(path):
            with open(path, "rb") as f:
                res = pickle.load(f)
            os.unlink(path)
        else:
            res = {"fam": {}, "bad": None}
            at = (progress[2 * w], progress[2 * w + 1])
            kind = "hangs" if stalled == at else "ended the process"
            if not stalled or stalled == at:
                fam = fams[at[0]]
                case = next(itertools.islice(fam.gen(tier), at[1], None))
                res["bad"] = (at[0], at[1], case, "this case " + kind)
        if res.get("error"):
            error = res["error"]
        if res["bad"] and (bad is None or res["bad"][:2] < bad[:2]):
            bad = res["bad"]
        for name, r in res["fam"].items():
            t = per.setdefault(name, dict(n=0, steps=0, xs=0, xr=0, seen=set(), outcomes=set(), notes={}, samples=[]))
            for k in ("n", "steps", "xs", "xr"):
                t[k] += r[k]
            a = array.array("Q")
            a.frombytes(r["seen"])
            t["seen"].update(a)
            t["outcomes"].update(r["outcomes"])
            for k, v in r["notes"].items():
                t["notes"][k] = t["notes"].get(k, 0) + v
            t["samples"] += r["samples"]
    os.rmdir(tmp)
    return per, bad, error


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines 'known: property=<id> case=<key of family and case> <text>' of the committed file."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("known: property=%s case=" % prop):
                rest = line.split("case=", 1)[1].strip()
                key, _, text = rest.partition(" ")
                known[key] = text
    return known


# ---------------------------------------------------------------------------- main
def write_evidence(prop, tier, seed, per, bad, wall, assumptions, exhaustive, fams):
    cov = {
        "states": sum(len(t["seen"]) + t["xs"] for t in per.values()),
        "transitions": sum(t["steps"] for t in per.values()),
        "traces_validated_against_impl": sum(t["n"] + t["xr"] for t in per.values()),
        "distinct_outcomes": sum(len(t["outcomes"]) for t in per.values()),
        "rule": "states: distinct cases (documents, histories or schedules) of the families below plus the states "
                "visited inside explorers; transitions: calls made into the library; "
                "traces_validated_against_impl: executions of the real code compared with the oracle",
        "exhaustive": bool(exhaustive and bad is None),
        "families": {f.name: dict(about=f.about, cases=per.get(f.name, {}).get("n", 0),
                                  distinct=len(per[f.name]["seen"]) if f.name in per else 0,
                                  steps=per.get(f.name, {}).get("steps", 0),
                                  outcomes=len(per[f.name]["outcomes"]) if f.name in per else 0,
                                  **({"notes": per[f.name]["notes"]} if f.name in per and per[f.name]["notes"] else {}))
                     for f in fams},
        "samples": [{"family": n, "case": json.loads(json.dumps(s, default=repr)) if len(json.dumps(s, default=repr)) < 3000
                     else short(s, 3000)}
                    for n, t in per.items() for s in t["samples"][:2]][:40],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": 1 if bad else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(path + ".tmp", path)
    return cov


def violation(prop, fam, case, msg, tier="quick"):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "family": fam, "tier": tier, "case": case, "message": msg}, f, indent=1,
                  ensure_ascii=True, default=repr)
    print("%s: family %s" % (prop, fam))
    print("case key %016x" % h64([fam, case]))
    print(short(case, 1500))
    print(short(msg, 3000))
    print("replay with: /opt/venv/bin/python %s %s --replay %s" % (os.path.join(VERIF, "run.py"), prop, path))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return 1


def main(check, argv):
    prop = check.ID
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = only = None
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--replay":
            replay = next(it)
        elif a == "--only":
            only = next(it)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    fams = check.families()
    if only:
        fams = [f for f in fams if f.name == only]
    if replay:
        rec = json.load(open(replay))
        fam = [f for f in fams if f.name == rec["family"]][0]
        signal.signal(signal.SIGPROF, _on_timer)
        msg = run_case(fam, rec["case"], Ctx(rec.get("tier", "quick"), seed))
        if msg is None:
            print("the property held on this case")
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    workers = int(os.environ.get("VERIF_WORKERS", "0") or 0) or max(1, min(8, len(os.sched_getaffinity(0))))
    known = known_findings(prop)
    per, bad, error = explore(fams, tier, seed, workers, known)
    if error:
        print(error)
        return 2
    if bad is not None:
        fi, i, case, msg = bad
        cov = write_evidence(prop, tier, seed, per, bad, time.monotonic() - t0, check.ASSUMPTIONS, check.EXHAUSTIVE, fams)
        return violation(prop, fams[fi].name, case, msg, tier)
    cov = write_evidence(prop, tier, seed, per, None, time.monotonic() - t0, check.ASSUMPTIONS, check.EXHAUSTIVE, fams)
    for key, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s held: %d states, %d transitions, %d executions, %d distinct outcomes, %.1f s" % (
        prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["distinct_outcomes"],
        time.monotonic() - t0))
    for f in fams:
        t = per.get(f.name)
        if t:
            print("  %-28s %8d cases %8d distinct %9d calls %7d outcomes %s" % (
                f.name, t["n"], len(t["seen"]), t["steps"], len(t["outcomes"]), t["notes"] or ""))
    return 0
