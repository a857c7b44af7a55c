"""P01: pipeline output and streams arrive exactly once, in order, uncorrupted."""
from __future__ import annotations

import random
import typing as t

from .. import fw, values
from . import common as c

RUNS = {"quick": 3200, "thorough": 120000}


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    big = rng.choice([0, 0, 0, 3000, 40000, 250000 if tier == "thorough" or rng.random() < 0.3 else 9000])
    npipes = rng.choice([1, 1, 2, 3, 4])
    if isinstance(srv["pool"]["frag"], list) and srv["pool"]["frag"][1] < 100:
        big = min(big, 3000)
    plans = [c.gen_plan(rng, rng.choice([3, 8, 25]) if npipes < 3 else 6, big, pool_msgs=True) for _ in range(npipes)]
    srv["plans"] = plans
    if rng.random() < 0.35:
        srv["faults"] = c.receive_faults(rng, rng.randint(1, 2), ws.get("read_timeout", 30), 5)
    sc = {
        "net": fw.gen_net(rng),
        "srv": srv,
        "ws": ws,
        "rs": rng.choice([[1, 1], [1, 5]]),
        "modes": [rng.choice(["invoke", "begin", "begin", "poll", "slice"]) for _ in range(npipes)],
        "conc": rng.random() < 0.6,
        "order": [rng.randrange(8) for _ in range(60)],
        "poll_to": rng.choice([None, None, 1, 5]),
        "rerun": rng.random() < 0.2,
    }
    return sc


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    w = run.wsman()
    pool = RunspacePool(w, min_runspaces=sc.get("rs", [1, 1])[0], max_runspaces=sc.get("rs", [1, 1])[1])
    r = run.call(pool.open)
    if not run.must(r, "open", "opening a pool with no fault on it"):
        return
    n = len(sc["srv"].get("plans", []))
    pss: t.List[t.Any] = []
    live: t.List[t.Tuple[t.Any, str]] = []
    for i in range(n):
        ps = PowerShell(pool)
        ps.add_script("run %d" % i)
        pss.append(ps)
        mode = sc["modes"][i] if i < len(sc["modes"]) else "invoke"
        if sc.get("conc") and mode != "invoke":
            if not run.must(run.call(ps.begin_invoke), "run", "starting a pipeline"):
                return
            live.append((ps, mode))
            continue
        if mode == "invoke":
            r = run.call(ps.invoke)
            if not run.must(r, "run", "invoking a pipeline"):
                return
            run.check(r.value is ps.output, "ret", "invoke() did not return the output list")
        else:
            if not run.must(run.call(ps.begin_invoke), "run", "starting a pipeline"):
                return
            if not finish(run, ps, mode, sc):
                return
        verify(run, h, ps, i)
        if run.viol:
            return
    # concurrent ones: interleave single polls, then wait for each
    order = list(sc.get("order", []))
    while live and order:
        ps, mode = live[order.pop(0) % len(live)]
        if ps.state != 1:
            live = [x for x in live if x[0] is not ps]
            continue
        if mode == "begin" and len(order) % 3:
            continue
        if not run.must(run.call(ps.poll_invoke, timeout=sc.get("poll_to")), "poll", "polling a pipeline"):
            return
    for ps, mode in live:
        if not finish(run, ps, mode, sc):
            return
    for i, ps in enumerate(pss):
        verify(run, h, ps, i)
    if n > 1 and sc.get("conc"):
        run.cover["concurrent_pipelines"] += 1
    if sc.get("rerun") and pss and not run.viol:
        # the same object again: its streams keep the first run and gain the second
        ps = pss[0]
        h.plans.append([["out", ["S", "again"]], ["rec", "error", "e2"], ["end", "Completed"]])
        out0, err0 = len(ps.output), len(ps.streams.error)
        if run.must(run.call(ps.close), "close", "closing a finished pipeline") and run.must(run.call(ps.invoke), "run", "running it again"):
            run.check(ps.output[out0:] == ["again"] and len(ps.streams.error) == err0 + 1, "rerun", "second run of the same object gave %.100r" % (ps.output[out0:],))
    ev = [p for k, p in h.all_shells[0].pool.emitted if k == "event"]
    run.check(len(pool.user_events) <= len(ev), "events", "more user events than the server sent")
    run.must(run.call(pool.close), "close", "closing the pool")
    run.problems("refused")


def finish(run: fw.Run, ps: t.Any, mode: str, sc: t.Dict) -> bool:
    if mode == "slice":
        for _ in range(400):
            if ps.state != 1:
                break
            if not run.must(run.call(ps.poll_invoke, timeout=sc.get("poll_to")), "poll", "polling a pipeline"):
                return False
            if not prefix_ok(run, ps):
                return False
    elif mode == "poll":
        k = 0
        while ps.state == 1 and k < 400:
            k += 1
            if not run.must(run.call(ps.poll_invoke), "poll", "polling a pipeline"):
                return False
    r = run.call(ps.end_invoke)
    return run.must(r, "run", "waiting for a pipeline")


def prefix_ok(run: fw.Run, ps: t.Any) -> bool:
    p = c.pipe_of(run.hosts[0], ps)
    sent = sum(1 for k, _ in p.sent if k == "output")
    return run.check(len(ps.output) <= sent, "early", "more output objects than the server has sent so far")


def verify(run: fw.Run, h: t.Any, ps: t.Any, i: int) -> None:
    ps_pipes = c.pipes_of(h, ps)
    if not run.check(len(ps_pipes) == 1, "count", "pipeline %d ran %d times" % (i, len(ps_pipes))):
        return
    p = ps_pipes[0]
    if not run.check(p.state not in ("NotStarted", "Running"), "early", "pipeline %d: waiting returned although the server pipeline is %s" % (i, p.state)):
        return
    c.check_pipe(run, p, ps, "data", "pipeline %d" % i)
    run.check(ps.had_errors == (p.state == "Failed"), "flag", "had_errors is %r for a %s pipeline" % (ps.had_errors, p.state))
