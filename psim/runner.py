"""Seeded search over simulated runs, violation minimisation, replay, evidence."""
from __future__ import annotations

import collections
import contextvars
import copy
import gc
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time as _time
import typing as t

from . import state

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_now = _time.monotonic  # bound before the seams replace it
_pristine: t.Optional[state.Snapshot] = None

LIMITS = {"quick": dict(wall=75.0, shrink=40.0), "thorough": dict(wall=800.0, shrink=60.0)}
RUN_WALL = 30


class Outcome:
    def __init__(self) -> None:
        self.viol: t.List[t.Tuple[str, str]] = []
        self.digest = ""
        self.fired: t.Dict[str, int] = {}
        self.cover: t.Dict[str, int] = {}
        self.sim_s = 0.0
        self.steps = 0
        self.switches = 0
        self.trace: t.List = []
        self.error: t.Optional[str] = None
        self.requests = 0


def _alarm(signum: int, frame: t.Any) -> None:
    from . import kernel

    raise kernel.WallGuard("one run took over %d s of real time" % RUN_WALL)


_mod_cache: t.Dict[str, t.Any] = {}


def load(prop: str) -> t.Any:
    if prop not in _mod_cache:
        _mod_cache[prop] = importlib.import_module("psim.checks.%s" % prop.lower())
    return _mod_cache[prop]


def boot(scratch: str) -> None:
    """Install the seams and import the code under test from the working tree."""
    os.makedirs(scratch, exist_ok=True)
    users = os.path.join(scratch, "users")
    with open(users, "w", encoding="utf-8") as f:
        f.write("DOM:user:pass\nDOM:other:hunter2\nDOM:j\u00f6rg:p\u00e4ss w\u00f6rd \u2603\nDOM:long:%s\n" % ("x7" * 60))
    os.environ["NTLM_USER_FILE"] = users
    from . import seams

    seams.install(os.path.join(REPO, "src"), scratch)
    import pkgutil

    import pypsrp

    for m in pkgutil.iter_modules(pypsrp.__path__):
        importlib.import_module("pypsrp." + m.name)
    global _pristine
    _pristine = state.Snapshot("pypsrp")
    gc.disable()


def execute(prop: str, sc: t.Dict, seed: int, scratch: str, keep_trace: bool = False) -> Outcome:
    from . import fw, kernel

    mod = load(prop)
    out = Outcome()
    sc = copy.deepcopy(sc)
    if _pristine is not None:
        _pristine.restore()
    random.seed(seed)
    run = fw.Run(prop, sc, seed, scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_WALL)
    import warnings

    try:
        with kernel.active(run.sim), warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            run.warned = caught  # type: ignore[assignment]
            try:
                contextvars.copy_context().run(mod.run, run, sc)
            except kernel.StepBudget as e:
                run.viol.append(("hang", "the client keeps going without ever finishing: %s" % e))
            except kernel.Deadlock as e:
                run.viol.append(("hang", "the client waits for ever: %s" % e))
            except kernel.ModelError as e:
                run.viol.append(("model", "the server cannot digest what the client sent: %s" % str(e)[-1200:]))
            except kernel.WallGuard as e:
                run.viol.append(("spin", "the client computes without end: %s" % e))
    except kernel.HarnessError as e:
        out.error = "HarnessError: %s" % e
    except Exception as e:
        import traceback

        # the client gave the check something no correct client gives (the checks handle what correct clients do)
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1400:]
        run.viol.append(("unexpected", "raised %s while judging the run: %s" % (type(e).__name__, tb)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out.viol = run.viol
    out.digest = run.sim.digest()
    out.fired = dict(run.sim.fired)
    cov = collections.Counter(run.cover)
    for h in run.hosts:
        cov.update(h.coverage)
    out.cover = dict(cov)
    out.sim_s = run.sim.now
    out.steps = run.sim.steps
    out.switches = run.sim.switches
    out.requests = sum(len(h.http) for h in run.hosts)
    if keep_trace:
        out.trace = run.sim.trace[-400:]
    return out


def gen(prop: str, seed: int, tier: str) -> t.Dict:
    sc = load(prop).gen(random.Random("gen/%s/%s" % (prop, seed)), tier)
    return json.loads(json.dumps(sc))


# ---- workers ---------------------------------------------------------------------------------------


def _worker(prop: str, tier: str, base: int, wid: int, nworkers: int, total: int, deadline: float, scratch: str, stop: t.Any, q: t.Any) -> None:
    try:
        boot(scratch)
        known = known_sigs(prop)
        agg: t.Dict[str, t.Any] = dict(
            runs=0, sim_s=0.0, steps=0, switches=0, requests=0, fired=collections.Counter(), cover=collections.Counter(), digests=set(), faulted=set(), samples=[], errors=[], known=collections.Counter(), determinism=[0, 0]
        )
        viols: t.List[t.Tuple[int, t.List]] = []
        idx = wid
        while idx < total and _now() < deadline and not stop.is_set():
            seed = base * 1_000_000 + idx
            sc = gen(prop, seed, tier)
            o = execute(prop, sc, seed, scratch)
            agg["runs"] += 1
            if agg["runs"] % 25 == 0:
                gc.collect()
            if o.error:
                agg["errors"].append((seed, o.error))
                if len(agg["errors"]) > 5:
                    break
            agg["sim_s"] += o.sim_s
            agg["steps"] += o.steps
            agg["switches"] += o.switches
            agg["requests"] += o.requests
            agg["fired"].update(o.fired)
            agg["cover"].update(o.cover)
            agg["digests"].add(o.digest)
            if o.fired or o.cover:
                agg["faulted"].add(o.digest)
            if idx < nworkers and len(agg["samples"]) < 1:
                agg["samples"].append({"seed": seed, "scenario": sc, "requests": o.requests, "sim_s": round(o.sim_s, 3), "faults": o.fired})
            if idx < 3 * nworkers:
                o2 = execute(prop, sc, seed, scratch)
                agg["determinism"][0] += 1
                agg["determinism"][1] += int(o2.digest == o.digest)
            new = []
            for code, text in o.viol:
                if code in known:
                    agg["known"][code] += 1
                else:
                    new.append((code, text))
            if new:
                viols.append((idx, new))
                if len(viols) >= 3:
                    break
                if len(viols) == 1:
                    stop_at = _now() + 6.0
                    deadline = min(deadline, stop_at)
            idx += nworkers
        agg["last"] = idx
        q.put((wid, agg, viols, None))
    except BaseException as e:
        import traceback

        q.put((wid, None, [], "".join(traceback.format_exception(type(e), e, e.__traceback__))))


def known_file() -> t.List[t.Dict]:
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_sigs(prop: str) -> t.Dict[str, str]:
    return {e["code"]: e["what"] for e in known_file() if e["property"] == prop and e.get("status") == "open"}


# ---- shrinking -------------------------------------------------------------------------------------


def _paths(x: t.Any, pre: t.Tuple = ()) -> t.Iterator[t.Tuple]:
    yield pre
    if isinstance(x, dict):
        for k in list(x):
            yield from _paths(x[k], pre + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from _paths(x[i], pre + (i,))


def _at(x: t.Any, path: t.Tuple) -> t.Any:
    for k in path:
        x = x[k]
    return x


def _set(x: t.Any, path: t.Tuple, v: t.Any) -> t.Any:
    y = copy.deepcopy(x)
    if not path:
        return v
    _at(y, path[:-1])[path[-1]] = v
    return y


def symptom(text: str) -> str:
    """What must stay the same while minimising, besides the code: the exception class, if there is one."""
    import re

    m = re.search(r"raised (\w+)", text)
    return m.group(0) if m else ""


def shrink(prop: str, sc: t.Dict, seed: int, code: str, sym: str, scratch: str, budget: float) -> t.Tuple[t.Dict, int]:
    end = _now() + budget
    tries = 0
    mod = load(prop)
    valid = getattr(mod, "valid", lambda s: True)

    def fails(c: t.Dict) -> bool:
        nonlocal tries
        tries += 1
        try:
            if not valid(c):
                return False
            o = execute(prop, c, seed, scratch)
        except Exception:
            return False
        if tries % 25 == 0:
            gc.collect()
        return o.error is None and any(v[0] == code and symptom(v[1]) == sym for v in o.viol)

    changed = True
    while changed and _now() < end:
        changed = False
        # lists: drop chunks
        for path in sorted((p for p in _paths(sc)), key=len):
            if _now() > end:
                break
            try:
                x = _at(sc, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(x, list) and x:
                n = len(x)
                size = n
                while size >= 1 and _now() < end:
                    i = 0
                    while i < len(x):
                        c = _set(sc, path, x[:i] + x[i + size :])
                        if fails(c):
                            sc = c
                            x = _at(sc, path)
                            changed = True
                        else:
                            i += size
                        if _now() > end:
                            break
                    size //= 2
            elif isinstance(x, dict):
                for k in list(x):
                    if _now() > end:
                        break
                    c = copy.deepcopy(sc)
                    del _at(c, path)[k]
                    if fails(c):
                        sc = c
                        x = _at(sc, path)
                        changed = True
        for path in list(_paths(sc)):
            if _now() > end:
                break
            try:
                x = _at(sc, path)
            except (KeyError, IndexError, TypeError):
                continue
            cands: t.List[t.Any] = []
            if isinstance(x, bool):
                cands = [False] if x else []
            elif isinstance(x, int) and abs(x) > 1:
                cands = [1, x // 2]
            elif isinstance(x, float) and x not in (0.0, 1.0):
                cands = [0.0, 1.0]
            elif isinstance(x, str) and len(x) > 4 and path:
                cands = ["a", x[: len(x) // 4 * 2]]
            for v in cands:
                c = _set(sc, path, v)
                if fails(c):
                    sc = c
                    changed = True
                    break
    return sc, tries


# ---- main ------------------------------------------------------------------------------------------


def _in_child(fn: t.Callable[[t.Any], None], timeout: float) -> t.Any:
    """Run fn(conn) in a fresh forked process and return what it sends."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=fn, args=(b,))
    p.start()
    b.close()
    try:
        if a.poll(timeout):
            return a.recv()
        return None
    except EOFError:
        return None
    finally:
        p.terminate()
        p.join(5)


def run_check(prop: str, tier: str, base: int, runs: t.Optional[int] = None, wall: t.Optional[float] = None, jobs: int = 8, quiet: bool = False) -> int:
    t0 = _now()
    mod_runs = _peek_runs(prop, tier)
    total = runs or mod_runs
    lim = LIMITS[tier]
    deadline = t0 + (wall or lim["wall"])
    top = tempfile.mkdtemp(prefix="psim-")
    code = 2
    try:
        ctx = mp.get_context("fork")
        stop = ctx.Event()
        q = ctx.Queue()
        procs = []
        for w in range(jobs):
            p = ctx.Process(target=_worker, args=(prop, tier, base, w, jobs, total, deadline, os.path.join(top, "w%d" % w), stop, q))
            p.start()
            procs.append(p)
        results: t.Dict[int, t.Any] = {}
        hard = deadline + RUN_WALL + 30
        viols: t.List[t.Tuple[int, t.List]] = []
        while len(results) < jobs and _now() < hard:
            try:
                wid, agg, vs, err = q.get(timeout=1.0)
            except Exception:
                if not any(p.is_alive() for p in procs) and q.empty():
                    break
                continue
            results[wid] = (agg, err)
            viols += vs
            if vs:
                stop.set()
        for p in procs:
            p.join(2)
            if p.is_alive():
                p.kill()
        wall_s = _now() - t0
        errs = [e for _, e in results.values() if e]
        aggs = [a for a, _ in results.values() if a]
        tot: t.Dict[str, t.Any] = dict(runs=0, sim_s=0.0, steps=0, switches=0, requests=0, fired=collections.Counter(), cover=collections.Counter(), digests=set(), faulted=set(), samples=[], errors=[], known=collections.Counter(), det=[0, 0])
        for a in aggs:
            for k in ("runs", "sim_s", "steps", "switches", "requests"):
                tot[k] += a[k]
            for k in ("fired", "cover", "known"):
                tot[k].update(a[k])
            tot["digests"] |= a["digests"]
            tot["faulted"] |= a["faulted"]
            tot["samples"] += a["samples"]
            tot["errors"] += a["errors"]
            tot["det"][0] += a["determinism"][0]
            tot["det"][1] += a["determinism"][1]
        rep = None
        if viols:
            viols.sort(key=lambda v: v[0])
            rep = report(prop, tier, base, viols[0], top, lim["shrink"])
        write_evidence(prop, tier, base, tot, wall_s, 1 if viols else 0)
        for c, what in known_sigs(prop).items():
            print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, what, tot["known"].get(c, 0)))
        print(
            "%s %s: %d runs in %.1f s (%.0f runs/h), %.0f s simulated, %d HTTP requests, %d faults injected, %d distinct traces, determinism %d/%d"
            % (prop, tier, tot["runs"], wall_s, tot["runs"] / max(wall_s, 0.1) * 3600, tot["sim_s"], tot["requests"], sum(tot["fired"].values()), len(tot["digests"]), tot["det"][1], tot["det"][0])
        )
        if rep is not None:
            print("VIOLATION property=%s replay=%s" % (prop, rep))
            code = 1
        elif errs or tot["errors"] or len(results) < jobs:
            for e in errs[:2]:
                print("ERROR worker:", e)
            for s, e in tot["errors"][:3]:
                print("ERROR seed %s: %s" % (s, e))
            if len(results) < jobs:
                print("ERROR: %d of %d workers reported" % (len(results), jobs))
            code = 2
        elif tot["runs"] == 0:
            code = 2
        else:
            code = 0
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return code


def _peek_runs(prop: str, tier: str) -> int:
    """The module's run count, read in a child so the parent never imports the code under test."""
    ns: t.Dict[str, t.Any] = {}
    p = os.path.join(VERIF, "psim", "checks", prop.lower() + ".py")
    import re

    m = re.search(r"^RUNS\s*=\s*(\{.*\})", open(p).read(), re.M)
    if m:
        return eval(m.group(1), {}, ns)[tier]
    return {"quick": 1600, "thorough": 60000}[tier]


def report(prop: str, tier: str, base: int, viol: t.Tuple[int, t.List], top: str, budget: float) -> str:
    idx, vs = viol
    seed = base * 1_000_000 + idx
    code, text = vs[0]
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d.json" % (prop, "".join(c if c.isalnum() else "_" for c in code)[:40], seed))

    def child(conn: t.Any) -> None:
        sd = os.path.join(top, "shrink")
        boot(sd)
        sc0 = gen(prop, seed, tier)
        o0 = execute(prop, sc0, seed, sd)
        warm: t.List[int] = []
        if not any(v[0] == code for v in o0.viol):
            # state carried over from earlier runs in the same process: replay needs them
            warm = [base * 1_000_000 + i for i in range(idx % 8, idx, 8)]
            for s in warm:
                execute(prop, gen(prop, s, tier), s, sd)
            o0 = execute(prop, sc0, seed, sd, True)
            conn.send(dict(scenario=sc0, original=None, warmup=warm, tries=0, digest=o0.digest, viol=o0.viol or vs, trace=o0.trace, fired=o0.fired, sim_s=o0.sim_s))
            return
        sc, tries = shrink(prop, sc0, seed, code, symptom(text), sd, budget)
        o = execute(prop, sc, seed, sd, True)
        conn.send(dict(scenario=sc, original=sc0, warmup=warm, tries=tries, digest=o.digest, viol=o.viol, trace=o.trace, fired=o.fired, sim_s=o.sim_s))

    r = _in_child(child, budget + 120)
    if r is None:
        r = dict(scenario=None, original=None, warmup=[], tries=0, digest="", viol=vs, trace=[], fired={}, sim_s=0)
    doc = dict(property=prop, seed=seed, tier=tier, code=code, found=text, **r)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=repr)
    # the replay must reproduce in a fresh process
    def again(conn: t.Any) -> None:
        conn.send(replay(path, os.path.join(top, "replay"), quiet=True))

    ok = _in_child(again, 120)
    print("violation %s: %s" % (code, (r["viol"][0][1] if r["viol"] else text)[:800]))
    print("minimised with %d runs; faults %s; replay %s" % (r["tries"], r["fired"], "reproduces exactly" if ok == 1 else "did NOT reproduce exactly"))
    return path


def replay(path: str, scratch: str, quiet: bool = False) -> int:
    with open(path) as f:
        doc = json.load(f)
    boot(scratch)
    prop = doc["property"]
    for s in doc.get("warmup", []):
        execute(prop, gen(prop, s, doc["tier"]), s, scratch)
    sc = doc["scenario"] or gen(prop, doc["seed"], doc["tier"])
    o = execute(prop, sc, doc["seed"], scratch, True)
    hit = any(v[0] == doc["code"] for v in o.viol)
    same = o.digest == doc["digest"]
    if not quiet:
        for rec in o.trace:
            print("  %12.6f  %s" % (rec[0], " ".join(str(x) for x in rec[1:])))
        for c, tx in o.viol:
            print("violation %s: %s" % (c, tx))
        if o.error:
            print(o.error)
        print("replayed: violation %s, trace digest %s %s" % ("reproduced" if hit else "NOT reproduced", o.digest, "identical" if same else "differs from " + str(doc["digest"])))
    return 1 if hit and same else (0 if not hit else 3)


REAL = [
    "pypsrp (client, powershell, serializer, messages, complex_objects, shell, wsman, encryption, negotiate, host, _pool_manager) from /repo/src",
    "requests, urllib3, http.client (HTTP framing, pooling, retries)",
    "pyspnego NTLM/Negotiate client and server, requests_credssp, the TLS inside CredSSP (OpenSSL, both ends), cryptography (AES, RSA)",
]
STUB = [
    "TCP sockets and TLS (in-memory byte streams with latency, loss, resets)",
    "clocks and sleeps (virtual time), os.urandom and RSA key choice (seeded)",
    "the Windows host: HTTP, authentication decisions, WS-Man, WinRS processes, PSRP pools and pipelines (model server, psim/server.py)",
]


def write_evidence(prop: str, tier: str, base: int, tot: t.Dict, wall: float, violations: int) -> None:
    doc = dict(
        property=prop,
        tier=tier,
        seed=base,
        level="exploration",
        coverage=dict(
            evaluations=tot["runs"],
            distinct_nontrivial=len(tot["faulted"]),
            rule="one evaluation = one seeded simulated run (scenario, network latencies, fault sequence and schedule drawn from the seed); "
            "distinct by the SHA-256 of the full event trace, non-trivial when at least one fault fired or one situation the check names occurred",
            samples=[_clip(s) for s in sorted(tot["samples"], key=lambda s: s["seed"])[:3]],
            distinct_traces=len(tot["digests"]),
            runs_per_hour=round(tot["runs"] / max(wall, 0.01) * 3600),
            seeds_per_hour=round(tot["runs"] / max(wall, 0.01) * 3600),
            simulated_seconds=round(tot["sim_s"], 1),
            simulator_steps=tot["steps"],
            http_requests=tot["requests"],
            task_switches=tot["switches"],
            faults_injected=dict(sorted(tot["fired"].items())),
            situations_reached=dict(sorted(tot["cover"].items())),
            determinism_reruns=tot["det"][0],
            determinism_identical=tot["det"][1],
            real_components=REAL,
            stub_components=STUB,
        ),
        assumptions=[
            "the model server answers as WinRM/PSRP servers do (MS-WSMV, MS-PSRP); its behaviour outside the drawn scenarios is not explored",
            "TCP delivers bytes in order or not at all on one connection",
        ],
        wall_s=round(wall, 2),
        violations=violations,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=repr)


def _clip(x: t.Any, depth: int = 0) -> t.Any:
    if isinstance(x, str):
        return x if len(x) < 120 else x[:60] + "...(%d chars)" % len(x)
    if isinstance(x, dict):
        return {k: _clip(v, depth + 1) for k, v in list(x.items())[:30]}
    if isinstance(x, list):
        return [_clip(v, depth + 1) for v in x[:12]]
    return x


def selftest() -> int:
    """Every check imports, the code under test imports behind the seams."""
    import re

    d = os.path.join(VERIF, "psim", "checks")
    for n in sorted(os.listdir(d)):
        if re.match(r"p\d\d\.py$", n):
            importlib.import_module("psim.checks." + n[:-3])
    top = tempfile.mkdtemp(prefix="psim-")
    try:
        boot(top)
        import pypsrp.client  # noqa: F401
    finally:
        shutil.rmtree(top, ignore_errors=True)
    print("ready")
    return 0


def digests(seeds: t.List[int]) -> int:
    """One line per check and seed: the digest of its run."""
    top = tempfile.mkdtemp(prefix="psim-")
    try:
        boot(top)
        for i in range(1, 28):
            prop = "P%02d" % i
            for seed in seeds:
                print(prop, seed, execute(prop, gen(prop, seed, "quick"), seed, top).digest, flush=True)
                gc.collect()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return 0


def determinism(n: int) -> int:
    """The same seeds in processes with other hash seeds and in another order: every digest must be the same."""
    import subprocess

    seeds = list(range(1_000_000, 1_000_000 + n))
    outs = []
    for hs, order in (("0", seeds), ("1", seeds[::-1]), ("31337", seeds)):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        outs.append(subprocess.Popen([sys.executable, "-c", "from psim.runner import main; main(['--digests', '%s'])" % ",".join(map(str, order))], env=env, cwd=VERIF, stdout=subprocess.PIPE, text=True))
    sets = [frozenset((o.communicate()[0] or "").split("\n")) for o in outs]
    bad = sorted(set.union(*map(set, sets)) - set.intersection(*map(set, sets)))
    print("%d digests, %d differ" % (len(sets[0]) - 1, len(bad)))
    for b in bad[:20]:
        print("  ", b)
    return 1 if bad else 0


def main(argv: t.List[str]) -> int:
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--determinism", type=int, metavar="N", help="compare the digests of N seeds of every check between processes")
    ap.add_argument("--digests", help=argparse.SUPPRESS)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run a single seed and print its trace")
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()
    if a.digests:
        return digests([int(x) for x in a.digests.split(",")])
    if a.determinism:
        return determinism(a.determinism)
    if not a.prop:
        ap.error("which property?")
    if a.replay or a.one is not None:
        top = tempfile.mkdtemp(prefix="psim-")
        try:
            if a.replay:
                rc = replay(a.replay, top)
                if rc == 1:
                    print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return rc
            boot(top)
            sc = gen(a.prop, a.one, a.tier)
            print(json.dumps(sc, indent=1)[:6000])
            o = execute(a.prop, sc, a.one, top, True)
            for rec in o.trace:
                print("  %12.6f  %s" % (rec[0], " ".join(str(x) for x in rec[1:])))
            print(o.viol, o.error or "", o.cover, o.fired)
            return 1 if o.viol else 0
        finally:
            shutil.rmtree(top, ignore_errors=True)
    return run_check(a.prop, a.tier, a.seed, a.runs, a.wall, a.jobs)
