"""
Runs the case families of one property in parallel, aggregates what the monitors observed, decides, and writes the
evidence file. Usage: runner.py <property> [--replay FILE] [--cases N] [--seed N] [--tier T] [--family F]
"""
import argparse
import importlib
import json
import logging
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_WATCHDOG = 400  # seconds of wall clock; firing is inconclusive, never a violation
CASE_CPU = 25  # seconds of CPU time (cases take milliseconds): the code under test does not terminate
CAPS = {"quick": 240, "thorough": 780}


class Family:
    def __init__(self, name, fn, quick, thorough, need=()):
        """``need``: counters that must be non-zero, otherwise the run observed nothing (inconclusive)."""
        self.name, self.fn, self.quick, self.thorough, self.need = name, fn, quick, thorough, tuple(need)


class WatchdogFired(BaseException):
    pass


class CpuWatchdogFired(BaseException):
    pass


_cpu_fired = []


def _cpu_alarm(_signum, _frame):
    # Raised again and again, and remembered, since background tasks swallow exceptions.
    _cpu_fired.append(True)
    raise CpuWatchdogFired()


def _alarm(_signum, _frame):
    raise WatchdogFired()


def listed_findings(prop):
    """Keys of the genuine defects that are on record for a property (KNOWN_FINDINGS.md, 'known:' lines)."""
    keys = set()
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.md"), encoding="utf8") as f:
        for line in f:
            match = re.match(r"known: property=(\S+) key=(\S+) ", line)
            if match and match.group(1) == prop:
                keys.add(match.group(2))
    return keys


def load(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def run_case(family, seed, index, rec):
    from vt.rt import Inconclusive, Violation  # pylint: disable=import-outside-toplevel
    rng = random.Random(f"{seed}/{family.name}/{index}")
    rec.begin()
    rec.index = index
    signal.alarm(CASE_WATCHDOG)
    _cpu_fired.clear()
    stuck = ("violation", f"an operation did not terminate within {CASE_CPU} s of CPU time")
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU, 2)
    try:
        family.fn(rng, rec)
        return stuck if _cpu_fired else None
    except Violation as e:
        return stuck if _cpu_fired else ("violation", str(e))
    except Inconclusive as e:
        return ("inconclusive", str(e))
    except WatchdogFired:
        return ("inconclusive", "watchdog")
    except CpuWatchdogFired:
        return stuck
    except (MemoryError, OSError, KeyboardInterrupt) as e:
        return ("inconclusive", f"{type(e).__name__}: {e}")
    except BaseException as e:  # pylint: disable=broad-except
        # The monitors assume well-formed observations only; an observation they can't digest is a deviation of
        # the observed behaviour (none exists on a correct tree).
        return stuck if _cpu_fired else ("violation", f"observation rejected: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        rec.end()


def worker(args):
    prop, seed, jobs, deadline = args
    from vt.rt import Recorder  # pylint: disable=import-outside-toplevel
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _cpu_alarm)
    module = load(prop)
    families = {f.name: f for f in module.FAMILIES}
    rec = Recorder()
    findings, done, known = [], {}, {}
    for name, index in jobs:
        if time.time() > deadline:
            break
        result = run_case(families[name], seed, index, rec)
        for key, text in rec.known_now.items():
            known.setdefault(key, (name, index, "violation", text))
        done[name] = done.get(name, 0) + 1
        if result is not None:
            findings.append((name, index) + result)
            if sum(1 for f in findings if f[2] == "violation") >= 3 or "did not terminate" in result[1]:
                break
    return rec, findings, done, known


def worker_process(connection, args):
    connection.send(worker(args))
    connection.close()


def run_workers(chunks, seed):
    """
    One process per chunk, each with another hash seed: the iteration order of sets, which nothing may depend on. Returns the results with
    the hash seeds, or None for a process that died.
    """
    context = multiprocessing.get_context("spawn")
    running = []
    for i, chunk in enumerate(chunks):
        hash_seed = str((seed * 8 + i) % 2 ** 32)
        receiver, sender = context.Pipe(False)
        os.environ["PYTHONHASHSEED"] = hash_seed
        process = context.Process(target=worker_process, args=(sender, chunk))
        process.start()
        sender.close()
        running.append((hash_seed, process, receiver))
    results = []
    for hash_seed, process, receiver in running:
        try:
            results.append((hash_seed, receiver.recv()))
        except EOFError:
            results.append((hash_seed, None))
        process.join()
    return results


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    parser.add_argument("--family")
    parser.add_argument("--cases", type=int)
    parser.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args()
    sys.path.insert(0, VERIF)
    prop = args.property
    module = load(prop)
    import omemo  # pylint: disable=import-outside-toplevel
    if not os.path.realpath(omemo.__file__).startswith(os.path.realpath(os.environ.get("VT_REPO", "/repo")) + "/"):
        print(f"ERROR: wrong library: {omemo.__file__}")
        return 2
    tier = "thorough" if args.tier == "thorough" else "quick"

    if args.replay:
        with open(args.replay, encoding="utf8") as f:
            case = json.load(f)
        if os.environ.get("PYTHONHASHSEED") != case["hash_seed"]:
            os.environ["PYTHONHASHSEED"] = case["hash_seed"]
            os.execv(sys.executable, [sys.executable, "-m", "vt.runner"] + sys.argv[1:])
        logging.disable(logging.CRITICAL)
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGVTALRM, _cpu_alarm)
        from vt.rt import Recorder  # pylint: disable=import-outside-toplevel
        family = next(f for f in module.FAMILIES if f.name == case["family"])
        rec = Recorder()
        result = run_case(family, case["seed"], case["index"], rec)
        unlisted = {k: v for k, v in rec.known_now.items() if k not in listed_findings(prop)}
        print(result, rec.known_now)
        return 1 if result is not None or unlisted else 0

    started = time.time()
    deadline = started + CAPS[tier]
    jobs, planned = [], {}
    for family in module.FAMILIES:
        if args.family and family.name != args.family:
            continue
        n = args.cases if args.cases is not None else (family.quick if tier == "quick" else family.thorough)
        planned[family.name] = n
        jobs += [(family.name, i, (i + 0.5) / n) for i in range(n)]
    # Interleave the families proportionally, so that a run that hits its wall clock cap still has seen all of them.
    jobs.sort(key=lambda j: j[2])
    jobs = [(j[0], j[1]) for j in jobs]
    chunks = [(prop, args.seed, jobs[i::args.workers], deadline) for i in range(args.workers)]
    results = run_workers(chunks, args.seed)
    if any(result is None for _, result in results):
        print("INCONCLUSIVE: a worker process died")
        return 2

    counters, sigs, samples, known, findings, done = {}, set(), [], {}, [], {}
    evaluations = 0
    for hash_seed, (rec, found, d, known_here) in results:
        for k, v in rec.counters.items():
            counters[k] = counters.get(k, 0) + v
        sigs |= rec.sigs
        samples += rec.samples
        for k, v in known_here.items():
            known.setdefault(k, v + (hash_seed,))
        findings += [f + (hash_seed,) for f in found]
        evaluations += rec.evaluations
        for k, v in d.items():
            done[k] = done.get(k, 0) + v
    listed = listed_findings(prop)
    for key in sorted(set(known) - listed):
        findings.append(known.pop(key))
    known = {k: v[3] for k, v in known.items()}
    violations = [f for f in findings if f[2] == "violation"]
    inconclusive = [f for f in findings if f[2] == "inconclusive"]
    missing = sorted({c for f in module.FAMILIES for c in f.need
                      if planned.get(f.name) and not counters.get(c)})
    wall = round(time.time() - started, 2)
    evidence = {
        "property": prop, "tier": tier, "seed": args.seed, "level": module.LEVEL,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": module.RULE,
            "samples": samples[:4] or ["none"],
            "cases_per_family": done,
            "cases_planned_per_family": planned,
            "observed": dict(sorted(counters.items())),
            "inconclusive_cases": len(inconclusive),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": len(violations),
    }
    if known:
        evidence["coverage"]["known_findings_seen"] = sorted(known)
    outdir = os.environ.get("VT_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    if not args.family:
        with open(os.path.join(outdir, f"{prop}.json"), "w", encoding="utf8") as f:
            json.dump(evidence, f, indent=1, default=str)
    print(f"{prop} tier={tier} seed={args.seed}: {evaluations} executions, {len(sigs)} distinct non-trivial,"
          f" {counters.get('oracle_checks', 0)} oracle checks, {wall} s")
    for key, text in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {text}")
    if violations:
        violations.sort(key=lambda v: (v[0], v[1]))
        print(f"  {len(violations)} violating executions, each process stopping at its third")
        replays = os.path.join(outdir, "replays")
        os.makedirs(replays, exist_ok=True)
        for name, index, _, text, hash_seed in violations[:3]:
            path = os.path.join(replays, f"{prop}-{name}-{index}.json")
            with open(path, "w", encoding="utf8") as f:
                json.dump({"property": prop, "family": name, "seed": args.seed, "index": index, "hash_seed": hash_seed,
                           "what": text}, f)
            print(f"  [{name} #{index}] {text}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if missing:
        print(f"INCONCLUSIVE: the monitors never observed: {', '.join(missing)}")
        return 2
    if len(inconclusive) > 0.02 * max(1, evaluations):
        print(f"INCONCLUSIVE: {len(inconclusive)} cases, e.g. {inconclusive[0]}")
        return 2
    return 0


if __name__ == "__main__":
    try:
        CODE = main()
    finally:
        sys.stdout.flush()
    sys.exit(CODE)
