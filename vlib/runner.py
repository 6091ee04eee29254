"""Runs the generated-input checks of one property.

A check module (checks/cNN.py) defines PROPERTY, RULE, ASSUMPTIONS and SUBS, a list of Sub. Each Sub has a hypothesis
strategy producing a JSON-able case and a function run(case, rec) that raises Violation when the property is broken on
that case. Cases are explored in parallel shards (a fixed number, so the set of cases depends on VERIF_SEED only), any
failure is shrunk by hypothesis, re-executed without hypothesis, written out as a replay file and reported.

Exit status: 0 held on everything explored; 1 with a VIOLATION line; 3 the harness itself failed.
"""

import argparse
import collections
import concurrent.futures as cf
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import boot

SHARDS = 8
HANG_RC = 41


class Violation(AssertionError):
    """The property does not hold on this case."""


class Missing(Exception):
    """An internal name the (sub)check drives is absent: the sub-check is skipped, and says so in the evidence."""


class StopNow(KeyboardInterrupt):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg if not args else msg % args)


def internal(module: str, name: str):
    try:
        mod = importlib.import_module(module)
        return getattr(mod, name)
    except (ImportError, AttributeError) as e:
        raise Missing(f"{module}.{name}: {e}") from None


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def label(self, *names):
        self.labels.extend(names)

    def hit(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, examples=(), hang_s=150, shards=SHARDS, max_shards=SHARDS,
                 isolate=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough}
        self.examples = list(examples)
        self.hang_s = hang_s
        self.shards = min(shards, max_shards)


def jdump(x):
    return json.dumps(x, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, tuple):
        return list(o)
    if isinstance(o, bytes):
        return {"__bytes__": o.hex()}
    if hasattr(o, "item"):
        return o.item()
    return repr(o)


class Hang:
    """Ends the process, leaving the case behind, when one case stops making progress."""

    def __init__(self, path):
        self.path = path
        self.deadline = None
        self.case = None
        t = threading.Thread(target=self._loop, daemon=True)
        t.start()

    def start(self, sub, case, seconds):
        self.case = (sub.name, case)
        self.limit = seconds
        self.deadline = time.monotonic() + seconds

    def stop(self):
        self.deadline = None

    def _loop(self):
        while True:
            time.sleep(0.5)
            d = self.deadline
            if d is not None and time.monotonic() > d:
                sub, case = self.case
                with open(self.path, "w") as f:
                    f.write(jdump({"sub": sub, "case": case, "limit": self.limit}))
                faulthandler.dump_traceback(all_threads=True)
                os._exit(HANG_RC)


def _execute(sub, case, workdir):
    """Run one case in a fresh directory. Returns (rec, None) or (rec, message)."""
    rec = Rec()
    d = tempfile.mkdtemp(prefix="case-", dir=workdir)
    rec.dir = d
    cwd = os.getcwd()
    try:
        sub.run(json.loads(jdump(case)), rec)
        return rec, None
    except Missing:
        raise
    except (MemoryError, StopNow):
        raise
    except OSError as e:
        if e.errno in (24, 28, 12):  # EMFILE, ENOSPC, ENOMEM: the sandbox, not the code
            raise
        return rec, "".join(traceback.format_exception(e))
    except Violation as e:
        return rec, str(e)
    except Exception as e:
        return rec, "unexpected exception\n" + "".join(traceback.format_exception(e))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def _known(prop):
    path = os.path.join(boot.VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def run_shard(mod, tier, seed, shard, out, only):
    workdir = os.path.join(boot.setup_env(), "tmp")
    boot.ensure_hypothesis()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    hang = Hang(out + ".hang")
    res = {"subs": {}, "fail": None, "skipped": {}}
    t_end = time.monotonic() + (float(os.environ.get("VERIF_BUDGET_S", "330" if tier == "quick" else "780")))
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        if shard >= sub.shards:
            continue
        total = sub.n[tier]
        n = total // sub.shards + (1 if shard < total % sub.shards else 0)
        st = {"evaluations": 0, "distinct": set(), "labels": collections.Counter(), "samples": [], "cut": 0, "wall": 0.0}
        t0 = time.monotonic()
        state = {"best": None, "t_fail": None}

        def one(case):
            if time.monotonic() > t_end and state["best"] is None:
                st["cut"] += 1
                return
            with open(out + ".case", "w") as f:  # what was running, if the process is killed by a signal
                f.write(jdump({"sub": sub.name, "case": case}))
            hang.start(sub, case, sub.hang_s)
            try:
                rec, err = _execute(sub, case, workdir)
            finally:
                hang.stop()
            if err is None:
                if state["best"] is None:
                    st["evaluations"] += 1
                    for lb in set(rec.labels):
                        st["labels"][lb] += 1
                    if rec.nontrivial:
                        h = hashlib.sha1(jdump(case).encode()).hexdigest()[:16]
                        if h not in st["distinct"]:
                            st["distinct"].add(h)
                            if len(st["samples"]) < 2 and len(jdump(case)) < 1500:
                                st["samples"].append(case)
                if state["t_fail"] and time.monotonic() - state["t_fail"] > 45:
                    raise StopNow
                return
            key = (len(jdump(case)), jdump(case))
            if state["best"] is None or key < state["best"][0]:
                state["best"] = (key, case, err)
            if state["t_fail"] is None:
                state["t_fail"] = time.monotonic()
            elif time.monotonic() - state["t_fail"] > 45:
                raise StopNow
            raise Violation(err)

        try:
            for i, ex in enumerate(sub.examples):
                if i % sub.shards == shard:
                    one(ex)
            if n and sub.strategy is not None:
                test = given(sub.strategy)(one)
                test = settings(
                    max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                )(test)
                test = hypothesis.seed(seed * 1000 + shard)(test)
                test()
        except Missing as e:
            res["skipped"][sub.name] = str(e)
        except (StopNow, Violation, Exception) as e:
            if state["best"] is None:
                raise
        st["wall"] = time.monotonic() - t0
        if state["best"] is not None:
            # confirm without the library; a case that does not fail again within a few runs is schedule-dependent
            _, case, err = state["best"]
            again = 0
            for _ in range(5):
                hang.start(sub, case, sub.hang_s)
                _, e2 = _execute(sub, case, workdir)
                hang.stop()
                if e2 is not None:
                    again += 1
                    err = e2
                    break
            if again:
                res["fail"] = {"sub": sub.name, "case": case, "message": err}
            else:
                res.setdefault("flaky", []).append({"sub": sub.name, "case": case, "message": err})
        st["distinct"] = sorted(st["distinct"])
        st["labels"] = dict(st["labels"])
        res["subs"][sub.name] = st
        gc.collect()
        if res["fail"]:
            break
    with open(out, "w") as f:
        f.write(jdump(res))


def _write_replay(prop, fail):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(jdump(fail["case"]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{fail['sub']}-{h}.json")
    with open(path, "w") as f:
        f.write(json.dumps(json.loads(jdump({"property": prop, **fail})), indent=1))
    return path


def load_check(prop):
    boot.import_litdata()
    from . import sim

    sim.install()
    return importlib.import_module(f"checks.{prop.lower()}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only", default="")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.property.upper()
    only = [s for s in a.only.split(",") if s]
    owner = "VERIF_SCRATCH" not in os.environ
    try:
        if a.shard is not None:
            boot.setup_env()
            boot.ensure_hypothesis()
            mod = load_check(prop)
            run_shard(mod, a.tier, a.seed, a.shard, a.out, only)
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)
        if a.replay or os.environ.get("VERIF_CASE"):
            boot.setup_env()
            boot.ensure_hypothesis()
            return replay(prop, a.replay)
        return orchestrate(prop, a.tier, a.seed, only)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if a.shard is not None:
            sys.stderr.flush()
            os._exit(3)
        return 3
    finally:
        if owner and a.shard is None:
            boot.cleanup_scratch()


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    mod = load_check(prop)
    sub = next(s for s in mod.SUBS + getattr(mod, "KNOWN_SUBS", []) if s.name == data["sub"])
    _, err = _execute(sub, data["case"], os.environ["TMPDIR"])
    if err is None:
        print(f"replay of {path}: the property held")
        return 0
    print(err)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def _spawn(prop, tier, seed, shard, out, only):
    cmd = [sys.executable, os.path.join(boot.VERIF, "run.py"), prop, "--tier", tier, "--seed", str(seed),
           "--shard", str(shard), "--out", out, "--only", ",".join(only)]
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    with open(out + ".log", "w") as lf:
        p = subprocess.Popen(cmd, env=env, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             cwd=boot.VERIF, start_new_session=True)
        try:
            rc = p.wait(timeout=870)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    return rc


def orchestrate(prop, tier, seed, only):
    t0 = time.monotonic()
    base = boot._scratch()
    boot.ensure_hypothesis()
    outs = [os.path.join(base, f"shard{i}.json") for i in range(SHARDS)]
    with cf.ThreadPoolExecutor(SHARDS) as ex:
        rcs = list(ex.map(lambda i: _spawn(prop, tier, seed, i, outs[i], only), range(SHARDS)))
    fails, errors, subs, skipped, flaky, died = [], [], {}, {}, [], 0
    for i, (rc, out) in enumerate(zip(rcs, outs)):
        if rc == HANG_RC and os.path.exists(out + ".hang"):
            with open(out + ".hang") as f:
                h = json.load(f)
            fails.append({"sub": h["sub"], "case": h["case"], "hang": True,
                          "message": f"no progress: the case did not finish within {h['limit']} s"})
            continue
        if rc is not None and rc < 0 and os.path.exists(out + ".case"):
            with open(out + ".case") as f:
                c = json.load(f)
            fl = {"sub": c["sub"], "case": c["case"], "died": True, "message": f"the process died with signal {-rc}"}
            (fails if _confirm_death(prop, fl, base) else flaky).append(fl)
            died += 1
            continue
        if rc != 0 or not os.path.exists(out):
            with open(out + ".log") as f:
                tail = f.read()[-4000:]
            errors.append(f"shard {i} exited with {rc}\n{tail}")
            continue
        with open(out) as f:
            r = json.load(f)
        if r["fail"]:
            fails.append(r["fail"])
        flaky += r.get("flaky", [])
        skipped.update(r["skipped"])
        for name, s in r["subs"].items():
            t = subs.setdefault(name, {"evaluations": 0, "distinct": set(), "labels": collections.Counter(),
                                       "samples": [], "cut": 0, "wall": 0.0})
            t["evaluations"] += s["evaluations"]
            t["distinct"] |= set(s["distinct"])
            t["labels"].update(s["labels"])
            t["samples"] += s["samples"][: max(0, 2 - len(t["samples"]))]
            t["cut"] += s["cut"]
            t["wall"] = max(t["wall"], s["wall"])
    # every hang is confirmed once, alone, before it is believed
    confirmed = []
    for f_ in fails:
        if not f_.get("hang") or _confirm_hang(prop, f_, base):
            confirmed.append(f_)
    fails = confirmed
    known_lines = []
    meta = subprocess.run(
        [sys.executable, "-c", "import sys,json; sys.path.insert(0, %r)\nfrom vlib import boot\nboot.setup_env(); "
         "boot.ensure_hypothesis()\nfrom vlib import runner\nm=runner.load_check(%r)\n"
         "print('@@'+json.dumps({'rule': m.RULE, 'assumptions': getattr(m,'ASSUMPTIONS',[]), "
         "'known': runner.check_known(m)}))" % (boot.VERIF, prop)],
        capture_output=True, text=True, cwd=boot.VERIF, timeout=600)
    rule, assumptions = "", []
    for line in meta.stdout.splitlines():
        if line.startswith("@@"):
            m = json.loads(line[2:])
            rule, assumptions, known_lines = m["rule"], m["assumptions"], m["known"]
    if meta.returncode:
        errors.append("meta: " + meta.stderr[-3000:])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": sum(len(s["distinct"]) for s in subs.values()),
            "rule": rule,
            "samples": [{"sub": n, "case": c} for n, s in subs.items() for c in s["samples"]][:12],
            "per_sub": {n: {"evaluations": s["evaluations"], "distinct_nontrivial": len(s["distinct"]),
                            "labels": dict(sorted(s["labels"].items())), "not_run_out_of_time": s["cut"],
                            "wall_s": round(s["wall"], 1)} for n, s in subs.items()},
            "skipped": skipped, "unreproducible": flaky[:3],
        },
        "assumptions": assumptions, "wall_s": round(time.monotonic() - t0, 1), "violations": len(fails),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w") as f:
        f.write(json.dumps(json.loads(jdump(ev)), indent=1))
    for n, s in subs.items():
        print(f"{prop} {n}: {s['evaluations']} cases, {len(s['distinct'])} distinct non-trivial, {s['wall']:.0f}s"
              + (f", {s['cut']} cut" if s["cut"] else ""), {k: v for k, v in sorted(s["labels"].items())})
    for n, why in skipped.items():
        print(f"{prop} {n}: SKIPPED {why}")
    for fl in flaky:
        print(f"{prop} {fl['sub']}: INCONCLUSIVE, one failure that did not reproduce: {fl['message'][-600:]}")
    for ln in known_lines:
        print(ln)
    if fails:
        best = min(fails, key=lambda f_: len(jdump(f_["case"])))
        path = _write_replay(prop, best)
        print(f"{best['sub']}: {jdump(best['case'])[:3000]}")
        print(best["message"][-5000:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors))
        if len(errors) > 2 or not subs:  # one or two out of eight: the sandbox (memory, descriptors), not the code
            return 3
        print(f"{prop}: INCONCLUSIVE for {len(errors)} of {SHARDS} shards")
    if not subs or ev["coverage"]["evaluations"] == 0:
        print("nothing was evaluated")
        return 3
    print(f"{prop}: held on {ev['coverage']['evaluations']} cases in {ev['wall_s']}s")
    return 0


def _confirm_death(prop, fail, base):
    path = os.path.join(base, "died.json")
    with open(path, "w") as f:
        f.write(jdump({"property": prop, **fail}))
    for _ in range(5):
        p = subprocess.Popen([sys.executable, os.path.join(boot.VERIF, "run.py"), prop, "--replay", path],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            rc = 0
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        if rc < 0 or rc == 1:
            return True
    return False


def _confirm_hang(prop, fail, base):
    path = os.path.join(base, "hang.json")
    with open(path, "w") as f:
        f.write(jdump({"property": prop, **fail}))
    p = subprocess.Popen([sys.executable, os.path.join(boot.VERIF, "run.py"), prop, "--replay", path],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        rc = p.wait(timeout=120)
        return rc == 1
    except subprocess.TimeoutExpired:
        return True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def check_known(mod):
    """Re-run the listed findings: print one line for each that still fails."""
    lines = []
    for k in _known(mod.PROPERTY):
        sub = next((s for s in getattr(mod, "KNOWN_SUBS", []) + mod.SUBS if s.name == k["sub"]), None)
        if sub is None:
            continue
        try:
            _, err = _execute(sub, k["case"], os.environ["TMPDIR"])
        except Missing:
            continue
        if err is not None:
            lines.append(f"KNOWN-FINDING: property={mod.PROPERTY} {k['what']}")
    return lines
