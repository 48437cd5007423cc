"""Runs scenarios of a property: seeded search, minimisation, replay, evidence.

Every scenario is a JSON value; executing it is a deterministic function of that
value and of the code under /repo.  Each one runs in its own child process,
forked from a parent which imported the code but never executed any of it."""
import argparse
import copy
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
REPLAYS = os.path.join(HERE, "evidence", "replay")

from .base import REPO, HarnessError, Inconclusive, Run, Violation, fingerprint, passes_repo, rng_for

_real_time = time.time
_real_open = open


# ---------------------------------------------------------------- one scenario
def execute(module, scenario, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    run = Run(scratch)
    result = {"status": "ok", "violation": None}
    try:
        module.execute(scenario, run)
    except Violation as v:
        result["violation"] = {"kind": v.kind, "message": v.message[:2000], "detail": v.detail}
    except Inconclusive as e:
        run.count("inconclusive")
        run.event("inconclusive", str(e))
    except HarnessError:
        result["status"] = "error"
        result["error"] = traceback.format_exc()
    except BaseException as e:  # noqa
        text = traceback.format_exc()
        if passes_repo(e):
            result["violation"] = {
                "kind": "unexpected-" + type(e).__name__,
                "message": f"{type(e).__name__}: {e}"[:500],
                "detail": {"traceback": text[-3000:]},
            }
        else:
            result["status"] = "error"
            result["error"] = text
    result.update(
        digest=run.digest, sim_time=run.sim_time, counts=run.counts, faults=run.faults,
        states=run.states, schedules=run.schedules, trace=run.trace,
        nontrivial=run.nontrivial,
    )
    return result


def _child(module, scenario, directory, out):
    os.setsid()
    code = 3
    try:
        with _real_open(os.path.join(directory, "log"), "w") as log:
            os.dup2(log.fileno(), 1)
            os.dup2(log.fileno(), 2)
        result = execute(module, scenario, os.path.join(directory, "w"))
        with _real_open(out + ".tmp", "wb") as f:
            pickle.dump(result, f)
        os.rename(out + ".tmp", out)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
        finally:
            os._exit(code)


class Pool:
    """At most WORKERS forked children at a time, one scenario each."""

    def __init__(self, module, workers, timeout):
        self.module, self.workers, self.timeout = module, workers, timeout
        self.running = {}
        self.serial = 0

    def start(self, key, scenario):
        self.serial += 1
        directory = os.path.join(SCRATCH, f"s{os.getpid()}-{self.serial}")
        os.makedirs(directory)
        sys.stdout.flush()
        sys.stderr.flush()
        out = os.path.join(directory, "result")
        pid = os.fork()
        if pid == 0:
            _child(self.module, scenario, directory, out)
        self.running[pid] = (key, scenario, directory, out, time.monotonic())

    def _finish(self, pid, status):
        key, scenario, directory, out, _ = self.running.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            with _real_open(out, "rb") as f:
                result = pickle.load(f)
        except Exception:
            log = ""
            try:
                with _real_open(os.path.join(directory, "log")) as f:
                    log = f.read()[-3000:]
            except OSError:
                pass
            if status == "timeout":
                result = {"status": "timeout", "error": f"no end after {self.timeout} s\n{log}"}
            else:
                result = {"status": "error", "error": f"child died ({status})\n{log}"}
        shutil.rmtree(directory, ignore_errors=True)
        return key, scenario, result

    def wait_one(self):
        while True:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid and pid in self.running:
                return self._finish(pid, status)
            if pid:
                continue
            now = time.monotonic()
            for pid, entry in list(self.running.items()):
                if now - entry[4] > self.timeout:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    os.waitpid(pid, 0)
                    return self._finish(pid, "timeout")
            time.sleep(0.002)

    def map(self, items, stop=lambda key, result: False):
        """Yields (key, scenario, result); no new starts once STOP says so."""
        items = iter(items)
        stopped = False
        while True:
            while not stopped and len(self.running) < self.workers:
                try:
                    key, scenario = next(items)
                except StopIteration:
                    stopped = True
                    break
                self.start(key, scenario)
            if not self.running:
                return
            done = self.wait_one()
            if stop(done[0], done[2]):
                stopped = True
            yield done

    def close(self):
        for pid in list(self.running):
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass


def run_one(module, scenario, timeout):
    pool = Pool(module, 1, timeout)
    for _, _, result in pool.map([(0, scenario)]):
        return result


def as_violation(result):
    """The violation in a result, counting a (confirmed) hang as one."""
    if result["status"] == "timeout":
        return {"kind": "hang", "message": result["error"][:300], "detail": {}}
    return result.get("violation")


# ---------------------------------------------------------------- minimisation
def _paths(value, prefix=()):
    yield prefix, value
    if isinstance(value, dict):
        for k in sorted(value):
            yield from _paths(value[k], prefix + (k,))
    elif isinstance(value, list):
        for i, x in enumerate(value):
            yield from _paths(x, prefix + (i,))


def _replace(root, path, new):
    root = copy.deepcopy(root)
    if not path:
        return new
    at = root
    for k in path[:-1]:
        at = at[k]
    at[path[-1]] = new
    return root


def candidates(module, scenario):
    """Smaller scenarios, most aggressive first."""
    if hasattr(module, "shrink"):
        yield from module.shrink(copy.deepcopy(scenario))
    lists = getattr(module, "SHRINK_LISTS", {"ops": 1, "faults": 0, "tasks": 1, "schedule": 0})
    numbers = getattr(module, "SHRINK_NUMBERS", {"mesh": 4, "n": 1, "steps": 1})
    found = list(_paths(scenario))
    for path, value in found:
        if path and isinstance(value, list) and path[-1] in lists:
            least = lists[path[-1]]
            size = len(value)
            chunk = size
            while chunk >= 1:
                for start in range(0, size, chunk):
                    rest = value[:start] + value[start + chunk:]
                    if len(rest) >= least and len(rest) < size:
                        yield _replace(scenario, path, rest)
                chunk //= 2
    for path, value in found:
        if path and path[-1] in numbers and isinstance(value, int) and not isinstance(value, bool):
            least = numbers[path[-1]]
            for new in sorted({least, (value + least) // 2, value - 1}):
                if least <= new < value:
                    yield _replace(scenario, path, new)


def minimise(module, scenario, violation, workers, timeout, budget_s):
    deadline = time.monotonic() + budget_s
    best, best_result, tried = scenario, None, 0
    seen = {json.dumps(scenario, sort_keys=True)}
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False

        def fresh():
            for c in candidates(module, best):
                if time.monotonic() > deadline:
                    return
                text = json.dumps(c, sort_keys=True)
                if text not in seen:
                    seen.add(text)
                    yield text, c

        hit = None
        pool = Pool(module, workers, timeout)

        def stop(key, result):
            v = as_violation(result)
            return v is not None and v["kind"] == violation["kind"] and v["kind"] != "hang"

        for key, candidate, result in pool.map(fresh(), stop):
            tried += 1
            if hit is None and stop(key, result):
                hit = (candidate, result)
        if hit:
            best, best_result = hit
            improved = True
    return best, best_result, tried


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    with _real_open(path) as f:
        data = json.load(f)
    return [f for f in data.get("findings", []) if f["property"] == prop]


def matches(finding, violation):
    return violation["kind"] == finding["kind"] and all(
        violation["detail"].get(k) == v for k, v in finding.get("detail", {}).items()
    )


# ---------------------------------------------------------------- the check
def load(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def scenarios(module, prop, seed, count):
    for i in range(count):
        yield i, module.generate(rng_for(seed, prop, i), i)


def tree_state():
    """Identifies the code that was simulated (recorded in the evidence)."""
    def git(*args):
        try:
            return subprocess.run(
                ["git", "-C", REPO, *args], capture_output=True, text=True, timeout=20
            ).stdout.strip()
        except Exception:
            return ""
    return {"head": git("rev-parse", "--short", "HEAD"),
            "modified": [l for l in git("status", "--porcelain", "-uno").splitlines() if l]}


def replay(prop, path):
    with _real_open(path) as f:
        data = json.load(f)
    module = load(data["property"])
    prepare(module)
    result = run_one(module, data["scenario"], timeout=2 * module.TIMEOUT)
    violation = as_violation(result)
    same = violation is not None and violation["kind"] == data["violation"]["kind"]
    exact = same and result.get("digest") == data.get("digest")
    print(f"replay of {path}: {'reproduced' if same else 'NOT reproduced'}"
          f"{' exactly' if exact else ''}")
    for line in result.get("trace", [])[-40:]:
        print("  |", line)
    if result["status"] == "error":
        print(result["error"])
        return 2
    if violation is None:
        return 0
    print(f"  {violation['kind']}: {violation['message']}")
    if data.get("digest") and not exact:
        print("  (the run differs from the recorded one)")
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1


def prepare(module):
    if hasattr(module, "prepare"):
        module.prepare()
    import gc
    gc.collect()
    gc.freeze()


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                        choices=["quick", "thorough"])
    parser.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    parser.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    parser.add_argument("--count", type=int)
    parser.add_argument("--replay")
    parser.add_argument("--digests", help="write the digest of every run to this file")
    parser.add_argument("--only", type=int, help="run this scenario only, verbosely")
    args = parser.parse_args(argv)
    prop = args.property.upper()
    if args.replay:
        return replay(prop, os.path.abspath(args.replay))

    started = time.monotonic()
    module = load(prop)
    prepare(module)
    seed = args.seed
    count = args.count or (module.QUICK if args.tier == "quick" else module.THOROUGH)
    budget = 400 if args.tier == "quick" else 3000
    if args.only is not None:
        scenario = module.generate(rng_for(seed, prop, args.only), args.only)
        print(json.dumps(scenario, indent=1))
        result = run_one(module, scenario, module.TIMEOUT)
        result["states"] = len(result.get("states", ()))
        result["schedules"] = len(result.get("schedules", ()))
        print(json.dumps(result, indent=1, default=str))
        return 0

    totals = {"counts": {}, "faults": {}, "states": set(), "schedules": set()}
    digests, errors, violations, suppressed = {}, [], [], {}
    sim_time, evaluations, nontrivial, distinct, samples = 0.0, 0, 0, set(), []
    findings = known_findings(prop)
    pool = Pool(module, args.workers, module.TIMEOUT)
    explore_start = time.monotonic()

    def items():
        for i, s in scenarios(module, prop, seed, count):
            if time.monotonic() - started > budget:
                return
            yield i, s

    def is_new(result):
        v = as_violation(result)
        return v is not None and not any(matches(f, v) for f in findings)

    confirmed = set()

    def stop(key, result):
        if result["status"] == "timeout":
            return False
        return is_new(result) or result["status"] == "error"

    retry = []
    for key, scenario, result in pool.map(items(), stop):
        if result["status"] == "timeout":
            retry.append((key, scenario))
            continue
        evaluations += 1
        if result["status"] == "error":
            errors.append((key, result["error"]))
            continue
        digests[key] = result["digest"]
        sim_time += result["sim_time"]
        for name in ("counts", "faults"):
            for k, n in result[name].items():
                totals[name][k] = totals[name].get(k, 0) + n
        totals["states"] |= result["states"]
        totals["schedules"] |= result["schedules"]
        if result["nontrivial"]:
            nontrivial += 1
            distinct.add(result["digest"])
            if len(samples) < 3:
                samples.append({"index": key, "scenario": scenario, "trace": result["trace"][:12]})
        v = as_violation(result)
        if v is None:
            continue
        finding = next((f for f in findings if matches(f, v)), None)
        if finding:
            suppressed[finding["id"]] = suppressed.get(finding["id"], 0) + 1
        else:
            violations.append((key, scenario, v, result))
    if not violations:
        # an apparent hang is only believed after a second, much longer try
        for key, scenario in retry[:2]:
            result = run_one(module, scenario, 4 * module.TIMEOUT)
            if result["status"] == "timeout":
                violations.append((key, scenario, as_violation(result), result))
            elif as_violation(result):
                violations.append((key, scenario, as_violation(result), result))
            elif result["status"] == "error":
                errors.append((key, result["error"]))
            else:
                evaluations += 1
    explore_s = time.monotonic() - explore_start

    # determinism of the harness, measured on this run
    determinism = {"repeated": 0, "mismatches": []}
    if not violations and not errors:
        again = sorted(digests)[:: max(1, len(digests) // (6 if args.tier == "quick" else 60))]
        pool = Pool(module, max(1, args.workers // 2), 4 * module.TIMEOUT)
        for key, _, result in pool.map(
            (k, module.generate(rng_for(seed, prop, k), k)) for k in again
        ):
            determinism["repeated"] += 1
            if result.get("digest") != digests[key]:
                determinism["mismatches"].append(key)

    for finding in findings:
        print(f"KNOWN-FINDING: property={prop} {finding['what']}"
              f" (met {suppressed.get(finding['id'], 0)} times in this run)")

    code = 0
    replay_path = None
    minimised = None
    if violations:
        violations.sort(key=lambda x: (x[2]["kind"] == "hang", len(json.dumps(x[1]))))
        key, scenario, violation, result = violations[0]
        print(f"{prop}: scenario {key} (seed {seed}): {violation['kind']}: {violation['message']}")
        best, tried = scenario, 0
        if violation["kind"] != "hang":
            left = max(10, min(60, budget - (time.monotonic() - started)))
            best, best_result, tried = minimise(
                module, scenario, violation, args.workers, module.TIMEOUT, left
            )
            result = best_result or result
            violation = as_violation(result) or violation
        os.makedirs(REPLAYS, exist_ok=True)
        replay_path = os.path.join(REPLAYS, f"{prop}-{seed}-{key}.json")
        with _real_open(replay_path, "w") as f:
            json.dump({
                "property": prop, "seed": seed, "index": key, "scenario": best,
                "original_scenario": scenario, "violation": violation,
                "digest": result.get("digest"), "trace": result.get("trace"),
                "tree": tree_state(), "minimisation_runs": tried,
            }, f, indent=1, default=str)
        print(f"{prop}: minimised ({tried} runs): {violation['kind']}: {violation['message']}")
        for line in (result.get("trace") or [])[-15:]:
            print("  |", line)
        minimised = {"runs": tried, "kind": violation["kind"]}
        if violation["kind"] != "hang":
            confirm = subprocess.run(
                [sys.executable, "-B", "-W", "ignore", os.path.join(HERE, "check.py"), prop, "--replay", replay_path],
                capture_output=True, text=True, cwd=HERE,
            )
            minimised["fresh_process_replay"] = (
                "reproduced exactly" if " reproduced exactly" in confirm.stdout else
                "reproduced" if confirm.returncode == 1 else "NOT reproduced"
            )
            print(f"{prop}: replay in a fresh process: {minimised['fresh_process_replay']}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        code = 1
    elif errors:
        for key, text in errors[:3]:
            print(f"{prop}: harness error in scenario {key}\n{text}")
        code = 2
    elif determinism["mismatches"]:
        print(f"{prop}: warning: not deterministic: scenarios {determinism['mismatches']}")
    if args.digests:
        with _real_open(args.digests, "w") as f:
            json.dump(digests, f)

    wall = time.monotonic() - started
    per_hour = int(evaluations / max(explore_s, 1e-9) * 3600)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(distinct),
        "rule": module.RULE,
        "samples": samples,
        "simulated_runs_per_hour": per_hour,
        "seeds_per_hour": per_hour,
        "scenario_seeds": f"sha256('{seed}/{prop}/i') for i in 0..{count - 1}",
        "simulated_time_covered": round(sim_time, 6),
        "faults_injected": dict(sorted(totals["faults"].items())),
        "events": dict(sorted(totals["counts"].items())),
        "distinct_states": len(totals["states"]),
        "state_measure": getattr(module, "STATE_MEASURE", "fingerprints of observable states"),
        "distinct_interleavings": len(totals["schedules"]),
        "components_real": module.REAL,
        "components_stubbed": module.STUBS,
        "determinism_recheck": determinism,
        "workers": args.workers,
        "tree": tree_state(),
        "known_findings_met": suppressed,
    }
    if minimised:
        coverage["minimised"] = minimised
    evidence = {
        "property": prop, "tier": args.tier, "seed": int(seed), "level": module.LEVEL,
        "coverage": coverage, "wall_s": round(wall, 3), "violations": len(violations),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    target = os.path.join(HERE, "evidence", f"{prop}.json")
    with _real_open(target + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(target + ".tmp", target)
    print(f"{prop}: {evaluations} runs ({len(distinct)} distinct with faults or histories), "
          f"{len(totals['states'])} states, {sum(totals['faults'].values())} faults, "
          f"{wall:.1f} s, exit {code}")
    return code
