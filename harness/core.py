"""Runner shared by all checks: executes the code under test, hands the recorded
cases to TLC, and turns TLC's verdict into the check's exit status and evidence."""
import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

logging.disable(logging.CRITICAL)
warnings.showwarning = lambda *args, **kwargs: None

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself cannot give an answer."""


# --------------------------------------------------------------------------- TLC
def run_tlc(module, cfg, scratch, env=None, workers=NPROC, extra=(), timeout=800, heap="6g"):
    """Runs TLC in its own copy of the spec directory; returns (rc, output)."""
    work = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    for name in os.listdir(SPEC):
        if name.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, name), work)
    cfg_path = os.path.join(work, module + ".cfg")
    if cfg is None:
        shutil.copy(os.path.join(SPEC, module + ".cfg"), cfg_path)
    elif "\n" in cfg:
        with open(cfg_path, "w") as out:
            out.write(cfg)
    else:
        shutil.copy(os.path.join(SPEC, cfg), cfg_path)
    cmd = [
        "java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
        "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
        "-config", cfg_path, "-noGenerateSpecTE",
        *extra, os.path.join(work, module + ".tla"),
    ]
    full_env = dict(os.environ)
    full_env.pop("JAVA_TOOL_OPTIONS", None)
    full_env.update(env or {})
    full_env["TMPDIR"] = scratch
    try:
        proc = subprocess.run(
            cmd, cwd=work, env=full_env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout, check=False,
        )
        out = proc.stdout.decode("utf8", "replace")
        code = proc.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode("utf8", "replace") + "\nTLC TIMEOUT"
        code = -9
    shutil.rmtree(work, ignore_errors=True)
    return code, out


def tlc_stats(out):
    found = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not found:
        sim = re.findall(r"([\d,]+) states checked", out) or re.findall(
            r"number of states generated: ([\d,]+)", out)
        if sim:
            n = int(sim[-1].replace(",", ""))
            return n, n
        return 0, 0
    gen, dist = found[-1]
    return int(gen.replace(",", "")), int(dist.replace(",", ""))


# ----------------------------------------------------------------- executing cases
class CaseTimeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise CaseTimeout()


_EXECUTE = None
_LIMIT = 60


def _run_chunk(specs):
    res = []
    for spec in specs:
        late = res and res[-1].get("late")
        res.append({"kind": "skipped", "late": True} if late else _run_one(spec))
    return res


def _run_one(spec):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(spec.get("limit", _LIMIT))
    try:
        case = _EXECUTE(spec)
    except CaseTimeout:
        case = {"kind": "crash", "error": "no answer within the time limit", "late": True}
    except BaseException as ex:  # pylint: disable=broad-except
        tb = traceback.extract_tb(ex.__traceback__)
        where = "; ".join("{}:{}".format(os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        case = {"kind": "crash", "error": "{}: {}".format(type(ex).__name__, str(ex)[:300]),
                "where": where}
    finally:
        signal.alarm(0)
    return case


def _mute():
    """What the code under test prints is not part of a verdict."""
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)


def execute_all(execute, specs, overall=700):
    global _EXECUTE  # pylint: disable=global-statement
    _EXECUTE = execute
    if not specs:
        return []
    ctx = multiprocessing.get_context("fork")
    size = max(1, min(16, len(specs) // (NPROC * 8)))
    chunks = [specs[i:i + size] for i in range(0, len(specs), size)]
    results = []
    pool = ctx.Pool(NPROC, initializer=_mute)
    deadline = time.time() + overall
    try:
        it = pool.imap(_run_chunk, chunks)
        for chunk in chunks:
            try:
                part = it.next(timeout=max(1, deadline - time.time()))
                results += part
                if sum(1 for c in results if c.get("late") and c["kind"] == "crash") >= 3:
                    # the code does not answer any more: enough to report, the rest is left out
                    results += [{"kind": "skipped"}] * (len(specs) - len(results))
                    break
            except multiprocessing.TimeoutError:
                results += [{"kind": "crash", "error": "no answer within the time limit"} for _ in chunk]
                results += [{"kind": "skipped"}] * (len(specs) - len(results))
                break
    finally:
        pool.terminate()
        pool.join()
    return results


# ------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="verif_{}_".format(pid))
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = []
        self.bad = []  # (group, spec, case, clauses)
        self.models = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # exhaustive or simulated checking of the specification alone
    def model(self, module, cfg=None, extra=(), timeout=600, env=None, must_hold=True):
        code, out = run_tlc(module, cfg, self.scratch, extra=extra, timeout=timeout, env=env)
        gen, dist = tlc_stats(out)
        ok = code == 0
        if must_hold and not ok:
            raise MachineryError("model {} {}: TLC exit {}\n{}".format(module, cfg, code, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": (cfg or module + ".cfg").split("\n")[0][:60],
                            "generated": gen, "distinct": dist})
        return out

    def refute(self, module, cfg, timeout=600):
        """The specification must be able to tell: this configuration has to violate its invariant."""
        code, out = run_tlc(module, cfg, self.scratch, timeout=timeout)
        if code not in (12, 13):
            raise MachineryError("model {} was expected to fail: TLC exit {}\n{}".format(module, code, out[-2000:]))
        self.models.append({"module": module, "config": "expected to fail: " + cfg.split("CONSTANTS")[-1].strip()[:80],
                            "generated": 0, "distinct": 0})

    # behaviours generated by TLC: the spec prints <<"HIST", json>> tuples
    def behaviours(self, module, cfg, num, depth, timeout=300, env=None):
        code, out = run_tlc(
            module, cfg, self.scratch, workers=1, env=env,
            extra=["-simulate", "num={}".format(num), "-depth", str(depth),
                   "-seed", str(self.seed), "-deadlock"],
            timeout=timeout)
        hist = parse_hist(out)
        gen, dist = tlc_stats(out)
        self.transitions += gen
        if not hist:
            raise MachineryError("no behaviours from {}: exit {}\n{}".format(module, code, out[-3000:]))
        return hist

    def enumerate(self, module, cfg=None, timeout=600, env=None):
        code, out = run_tlc(module, cfg, self.scratch, workers=1, env=env, extra=["-deadlock"],
                            timeout=timeout)
        hist = parse_hist(out)
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": (cfg or module + ".cfg").split("\n")[0][:60],
                            "generated": gen, "distinct": dist})
        if code != 0 or not hist:
            raise MachineryError("no behaviours from {}: exit {}\n{}".format(module, code, out[-3000:]))
        return hist

    # validate recorded cases against a trace specification
    def validate(self, module, specs, cases, chunk=4000):
        pairs = [(s, c) for s, c in zip(specs, cases) if c.get("kind") != "skipped"]
        for lo in range(0, len(pairs), chunk):
            part = pairs[lo:lo + chunk]
            self._validate(module, part)
        self.traces += len(pairs)
        for s, c in pairs[:: max(1, len(pairs) // 2)][:2]:
            self.samples.append({"spec": module, "input": trim(s), "recorded": trim(c)})

    def _validate(self, module, part):
        path = os.path.join(self.scratch, "cases_{}_{}.json".format(module, len(os.listdir(self.scratch))))
        with open(path, "w") as out:
            json.dump([c for _, c in part], out)
        code, out = run_tlc(module, None, self.scratch, env={"CASES": path},
                            extra=["-continue", "-deadlock"], timeout=850)
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        bad = {}
        for m in re.finditer(r"<<\s*\"BAD\",\s*(\d+),\s*(\{[^}]*\})", out):
            bad.setdefault(int(m.group(1)), set()).update(re.findall(r'"([^"]+)"', m.group(2)))
        if code not in (0, 12) and not bad:
            # an evaluation error on a recorded output outside the domain of the
            # specification: find the cases it happens on by judging them one at a time
            if len(part) == 1:
                if "evaluating" in out or "Attempted" in out or "overflow" in out:
                    self.bad.append((module, part[0][0], part[0][1], ["recorded output outside the specification's domain"], out[-1500:]))
                    return
                raise MachineryError("TLC exit {} on {}\n{}".format(code, module, out[-3000:]))
            if "evaluating" in out or "Attempted" in out or "overflow" in out:
                half = len(part) // 2
                self._validate(module, part[:half])
                if not self.bad:
                    self._validate(module, part[half:])
                if not self.bad:
                    raise MachineryError("TLC exit {} on {}\n{}".format(code, module, out[-3000:]))
                return
            raise MachineryError("TLC exit {} on {}\n{}".format(code, module, out[-3000:]))
        # with -continue TLC may report success after violations, so the printed verdicts count
        if not bad and "JOk is violated" in out:
            raise MachineryError("inconsistent TLC verdict\n" + out[-2000:])
        if not bad and dist < len(part):
            raise MachineryError("TLC judged {} states for {} cases\n{}".format(dist, len(part), out[-2000:]))
        for idx in sorted(bad):
            self.bad.append((module, part[idx - 1][0], part[idx - 1][1], sorted(bad[idx]), ""))


def parse_hist(out):
    res, seen = [], set()
    for m in re.finditer(r'^<<"HIST", "(.*)">>\s*$', out, re.M):
        raw = m.group(1).encode().decode("unicode_escape")
        if raw not in seen:
            seen.add(raw)
            res.append(json.loads(raw))
    return res


def trim(obj, limit=1200):
    text = json.dumps(obj)
    return obj if len(text) <= limit else text[:limit] + "..."


def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def write_replay(pid, module, spec, case, clauses, note):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    body = {"property": pid, "trace_spec": module, "input": spec, "recorded": case,
            "failing_clauses": clauses, "note": note,
            "how": "bin/check {} --replay <this file>".format(pid)}
    text = json.dumps(body, indent=1)
    path = os.path.join(folder, "{}-{}.json".format(pid, hashlib.sha1(text.encode()).hexdigest()[:12]))
    with open(path, "w") as out:
        out.write(text)
    return path


def run_models(ctx, mod):
    """Model checking of the specification alone, in a process of its own."""
    try:
        mod.models(ctx)
        data = {"states": ctx.states, "transitions": ctx.transitions, "models": ctx.models}
    except BaseException as ex:  # pylint: disable=broad-except
        data = {"error": str(ex)}
    path = os.path.join(ctx.scratch, "models.json")
    with open(path + ".tmp", "w") as out:
        json.dump(data, out)
    os.rename(path + ".tmp", path)
    os._exit(0)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--no-model", action="store_true", help="developer option: trace part only")
    args = parser.parse_args()
    pid = args.property
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    ctx = Ctx(pid, tier, seed)
    code = 2
    try:
        sys.path.insert(0, REPO)
        mod = importlib.import_module(pid.lower())
        if args.replay:
            data = json.load(open(args.replay))
            groups = [(data["trace_spec"], [data["input"]])]
        else:
            child = None
            if hasattr(mod, "models") and not args.no_model:
                child = multiprocessing.get_context("fork").Process(target=run_models, args=(ctx, mod))
                child.start()
            groups = mod.groups(ctx)
        for module, specs in groups:
            cases = execute_all(mod.execute, specs)
            if args.replay:
                print(json.dumps(cases[0], indent=1))
            ctx.validate(module, specs, cases)
        if not args.replay and child:
            child.join()
            path = os.path.join(ctx.scratch, "models.json")
            data = json.load(open(path)) if os.path.exists(path) else {"error": "the model process died"}
            if "error" in data:
                raise MachineryError(data["error"])
            ctx.states += data["states"]
            ctx.transitions += data["transitions"]
            ctx.models = data["models"] + ctx.models
        known = known_findings(pid)
        fresh = []
        for module, spec, case, clauses, note in ctx.bad:
            # a finding is one specific input together with the clauses that fail on it
            key = "{}:{}".format(spec.get("key", ""), ",".join(clauses))
            hit = [t for k, t in known if k == key]
            if spec.get("key") and hit:
                print("KNOWN-FINDING: property={} {}".format(pid, hit[0]))
            else:
                fresh.append((module, spec, case, clauses, note))
        code = 1 if fresh else 0
        for module, spec, case, clauses, note in fresh[:3]:
            path = write_replay(pid, module, spec, case, clauses, note)
            print("# clauses: {} {}".format(", ".join(clauses), case.get("error", "")))
            print("VIOLATION property={} replay={}".format(pid, path))
        if len(fresh) > 3:
            print("# {} failing cases in total".format(len(fresh)))
        if not args.replay:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            evidence = {
                "property": pid, "tier": tier, "seed": seed,
                "level": getattr(mod, "LEVEL", "model_checking"),
                "coverage": {
                    "states": ctx.states, "transitions": ctx.transitions,
                    "traces_validated_against_impl": ctx.traces,
                    "samples": ctx.samples[:8],
                    "models": ctx.models,
                    "rule": getattr(mod, "RULE", ""),
                    "notes": ctx.notes,
                },
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "wall_s": round(time.time() - start, 2),
                "violations": len(fresh),
            }
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as out:
                json.dump(evidence, out, indent=1)
            print("# {} {}: {} cases validated, {} states, {} transitions, {:.1f}s".format(
                pid, tier, ctx.traces, ctx.states, ctx.transitions, time.time() - start))
    except MachineryError as ex:
        print("MACHINERY ERROR: {}".format(ex))
        code = 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["core"] = sys.modules["__main__"]
    main()
