"""
Runner: executes a property's workload against the real code in worker processes,
gathers what the monitors observed, and turns it into a verdict and an evidence file.
"""
import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
BUDGET = {"quick": 780., "thorough": 6 * 3600.}
CASE_LIMIT = {"quick": 240., "thorough": 1800.}


class Violated(Exception):
    """Raised by a monitor's oracle: what was observed contradicts the property."""


class Inconclusive(Exception):
    """The harness could not set up the situation the property speaks about."""


class Mon:
    """Per-case recorder: events observed, oracle decisions taken, known findings."""

    def __init__(self, prop):
        self.prop = prop
        self.events = {}
        self.known = []
        self.log = []

    def seen(self, kind, k=1):
        self.events[kind] = self.events.get(kind, 0) + k

    def check(self, kind, cond, msg, *args):
        self.seen("decided:" + kind)
        if not cond:
            raise Violated("[{}] {}".format(kind, msg.format(*args) if args else msg))

    def finding(self, key, what):
        self.seen("known-finding:" + key)
        self.known.append((key, what))

    def call(self, kind, fn, *a, **k):
        """Invoke the code under test: an exception on valid use is a violation."""
        self.seen("call:" + kind)
        try:
            return fn(*a, **k)
        except (Violated, Inconclusive):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ["{}:{}".format(os.path.basename(f.filename), f.lineno) for f in tb
                     if "trikit" in f.filename][-1:]
            raise Violated("[{}] raised {}: {} at {}".format(kind, type(e).__name__, e, where)) from e

    def raises(self, kind, exc, fn, *a, **k):
        """The code under test must reject the call with the given exception type."""
        self.seen("call:" + kind)
        try:
            r = fn(*a, **k)
        except exc:
            self.seen("decided:" + kind)
            return
        except Exception as e:
            raise Violated("[{}] raised {}: {} instead of {}".format(kind, type(e).__name__, e, exc))
        raise Violated("[{}] was accepted, expected {}; returned {!r:.120}".format(
            kind, getattr(exc, "__name__", exc), r))


def _canon(case):
    return json.dumps(case, sort_keys=True)


def _load(prop):
    return importlib.import_module("props." + prop.lower())


def run_case(mod, prop, case):
    """Returns (status, message, events, known)."""
    import numpy as np
    mon = Mon(prop)
    np.random.seed(case.get("gseed", 12345) % (2 ** 32))
    random.seed(case.get("gseed", 12345))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            mod.run(case, mon)
            status, msg = "ok", ""
        except Violated as e:
            status, msg = "violated", str(e)
        except Inconclusive as e:
            status, msg = "inconclusive", str(e)
        except MemoryError as e:
            status, msg = "error", "MemoryError"
        except Exception as e:
            # Raised outside of mon.call: decide by the frame that raised.
            tb = traceback.extract_tb(e.__traceback__)
            last_ours = max([i for i, f in enumerate(tb) if f.filename.startswith(VERIF)], default=-1)
            through = [f for f in tb[last_ours + 1:] if f.filename.startswith(os.path.join(REPO, "trikit"))]
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
            if through:
                status, msg = "violated", "[exception] trikit raised {}: {} at {}:{}".format(
                    type(e).__name__, e, os.path.basename(through[-1].filename), through[-1].lineno)
            elif isinstance(e, (KeyError, IndexError, TypeError, ValueError, AttributeError)):
                # The observed result lacks the structure every correct result has
                # (a missing column, label or attribute, a wrong type or shape).
                status, msg = "violated", "[structure] observed result cannot be read: " + txt[-600:]
            else:
                status, msg = "error", txt
    try:
        import sys as _s
        if "matplotlib.pyplot" in _s.modules:
            _s.modules["matplotlib.pyplot"].close("all")
    except Exception:
        pass
    return status, msg, mon.events, mon.known


def _worker(prop, inq, outq, limit):
    faulthandler.enable()
    warnings.simplefilter("ignore")
    try:
        mod = _load(prop)
    except Exception:
        outq.put((-1, "error", traceback.format_exc(), {}, [], 0.))
        return
    while True:
        item = inq.get()
        if item is None:
            return
        idx, case = item
        t0 = time.time()
        outq.put((idx, "start", os.getpid(), None, None, t0))
        status, msg, ev, known = run_case(mod, prop, case)
        outq.put((idx, status, msg, ev, known, time.time() - t0))


def _describe(case):
    s = _canon(case)
    return case if len(s) < 1500 else json.loads(_canon({k: v for k, v in case.items() if len(json.dumps(v)) < 300}))


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<key> <what fails>
                parts = line.split(None, 3)
                out[(parts[1].split("=", 1)[1], parts[2].split("=", 1)[1])] = parts[3]
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    import numpy as np
    import trikit
    if not os.path.abspath(trikit.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("INCONCLUSIVE: trikit was not imported from", REPO)
        return 2
    mod = _load(prop)
    if a.replay:
        rec = json.load(open(a.replay))
        status, msg, ev, known = run_case(mod, prop, rec["case"])
        print("replayed:", status, msg)
        print(json.dumps(ev, indent=1, sort_keys=True))
        if status == "violated":
            print("VIOLATION property={} replay={}".format(prop, os.path.abspath(a.replay)))
            return 1
        return 0 if status == "ok" else 2

    rng = np.random.RandomState((seed * 7919 + int(hashlib.md5(prop.encode()).hexdigest()[:6], 16)) % (2 ** 31))
    cases = json.loads(json.dumps(mod.cases(rng, tier)))
    if a.limit:
        cases = cases[:a.limit]
    distinct = {}
    for c in cases:
        if mod.nontrivial(c):
            distinct[hashlib.md5(_canon({k: v for k, v in c.items() if k != "gseed"}).encode()).hexdigest()] = 1

    ctx = mp.get_context("fork")
    inq, outq = ctx.Queue(), ctx.Queue()
    for i, c in enumerate(cases):
        inq.put((i, c))
    nw = min(WORKERS, max(1, len(cases)))
    for _ in range(nw):
        inq.put(None)
    procs = [ctx.Process(target=_worker, args=(prop, inq, outq, None), daemon=True) for _ in range(nw)]
    for p in procs:
        p.start()

    events, known, bad, errors, incon = {}, {}, [], [], []
    done, started, slowest = 0, {}, 0.
    fail = None
    while done < len(cases):
        try:
            idx, status, msg, ev, kn, t = outq.get(timeout=5)
        except Exception:
            now = time.time()
            if now - t0 > BUDGET[tier]:
                fail = "watchdog: budget exhausted after {} of {} cases".format(done, len(cases))
            hung = [i for i, ts in started.items() if now - ts > CASE_LIMIT[tier]]
            if hung:
                fail = "watchdog: case {} did not finish".format(hung[0])
            if all(not p.is_alive() for p in procs) and outq.empty():
                fail = "workers died after {} of {} cases".format(done, len(cases))
            if fail:
                break
            continue
        if status == "start":
            started[idx] = t
            continue
        started.pop(idx, None)
        if idx < 0:
            fail = msg
            break
        done += 1
        slowest = max(slowest, t)
        for k, v in (ev or {}).items():
            events[k] = events.get(k, 0) + v
        for k, what in kn or []:
            known.setdefault(k, what)
        if status == "violated":
            bad.append((idx, msg))
        elif status == "inconclusive":
            incon.append((idx, msg))
        elif status == "error":
            errors.append((idx, msg))
        if time.time() - t0 > BUDGET[tier]:
            fail = "watchdog: budget exhausted after {} of {} cases".format(done, len(cases))
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    inq.cancel_join_thread()
    outq.cancel_join_thread()

    # Known findings listed for this property are reported, anything else is a violation.
    listed = known_findings()
    for k, what in sorted(known.items()):
        if (prop, k) in listed:
            print("KNOWN-FINDING: property={} {}".format(prop, listed[(prop, k)]))
        else:
            bad.append((0, "unlisted finding {}: {}".format(k, what)))

    wall = time.time() - t0
    missing = [m for m in getattr(mod, "MUST", []) if not events.get("decided:" + m)]
    os.makedirs(EVIDENCE, exist_ok=True)
    decided = sum(v for k, v in events.items() if k.startswith("decided:"))
    step = max(1, len(cases) // 3)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": [_describe(c) for c in cases[::step][:3]],
            "oracle_decisions": decided,
            "monitor_events": dict(sorted(events.items())),
            "cases_inconclusive": len(incon),
            "slowest_case_s": round(slowest, 3),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)

    print("{} {}: {} cases ({} distinct non-trivial), {} oracle decisions, {:.1f}s, slowest case {:.1f}s".format(
        prop, tier, done, len(distinct), decided, wall, slowest))
    if a.verbose:
        print(json.dumps(events, indent=1, sort_keys=True))
    if bad:
        bad.sort(key=lambda v: len(_canon(cases[v[0]])))
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "{}.json".format(prop))
        idx, msg = bad[0]
        json.dump({"property": prop, "tier": tier, "seed": seed, "message": msg, "case": cases[idx]},
                  open(path, "w"), indent=1)
        kinds = {}
        for i, m in bad:
            kinds.setdefault(m.split("]")[0][:60], []).append(m)
        for k, ms in sorted(kinds.items(), key=lambda v: -len(v[1]))[:8]:
            print("  {} x {}".format(len(ms), ms[0][:600]))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if fail or errors or missing:
        print("INCONCLUSIVE:", fail or "", "monitors never reached: {}".format(missing) if missing else "")
        for idx, msg in errors[:2]:
            print("case", idx, msg)
        return 2
    if incon and len(incon) > len(cases) // 2:
        print("INCONCLUSIVE: {} of {} cases; {}".format(len(incon), len(cases), incon[0][1]))
        return 2
    return 0
