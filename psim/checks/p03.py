"""P03: output polling recovers from up to five timeouts in a row, by the same request, and gives up at the sixth."""
from __future__ import annotations

import random
import typing as t

from .. import fw
from . import common as c
from . import p02

RUNS = {"quick": 2600, "thorough": 160000}
DONE = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/Done"


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    kind = rng.choice(["proc", "pipe", "pipe"])
    if kind == "proc":
        srv["procs"] = [[s for s in p02.gen_proc(rng, 500)[0] if s[0] in ("out", "out_sep", "sleep")] + [["end", rng.randint(0, 5)]]]
    else:
        srv["plans"] = [c.gen_plan(rng, rng.choice([2, 6, 12]))]
    rt = ws.get("read_timeout", 30)
    faults: t.List[t.Dict] = []
    auth: t.List[t.Dict] = []
    fatal = False
    mode = rng.choice(["runs", "runs", "runs", "auth", "outage"])
    win: t.List[t.Dict] = []
    if mode == "runs":
        n = rng.randint(1, 4)
        for _ in range(rng.randint(1, 4)):
            times = rng.choice([1, 1, 2, 3, 4, 5, 5])
            if rng.random() < 0.2 and not fatal:
                times = 6
                fatal = True
            left = times
            while left:
                k = rng.randint(1, left) if rng.random() < 0.4 else left
                f = {"on": "Receive", "n": n, "times": k, "kind": rng.choice(["drop_req", "drop_resp", "drop_resp", "delay_resp"])}
                if f["kind"] == "delay_resp":
                    f["secs"] = rt + rng.choice([0.5, 3.0, 90.0])
                faults.append(f)
                n += k
                left -= k
            if fatal:
                break
            n += rng.randint(1, 5)
        if rng.random() < 0.2:
            faults.append({"on": "Receive", "n": n + 1, "times": 3, "kind": "delay_resp", "secs": 0.4})
    elif mode == "auth":
        tot = 5
        while tot > 0 and rng.random() < 0.8:
            k = rng.randint(1, min(3, tot))
            tot -= k
            if rng.random() < 0.5:
                faults.append({"on": "Receive", "n": rng.randint(1, 5), "times": k, "kind": rng.choice(["drop_req", "drop_resp"])})
            else:
                auth.append({"on": "auth", "n": rng.randint(1, 6), "times": k, "kind": "drop_req"})
    else:
        # the host vanishes for a while: everything in flight is lost, connects time out
        t0 = rng.uniform(0.5, 60.0)
        win = [{"t0": t0, "t1": t0 + rng.choice([5.0, 40.0, 100.0, 150.0]), "kind": "timeout", "kill": "dead"}]
        srv["windows"] = win
    srv["faults"] = faults
    if rng.random() < 0.3:
        ws["reconnection_backoff"] = rng.choice([0.5, 1.0, 5.0])
    if rng.random() < 0.15:
        ws["reconnection_retries"] = rng.choice([1, 2])
    if rng.random() < 0.3:
        ws["connection_timeout"] = rng.choice([5, 31])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "kind": kind, "auth_faults": auth, "poll_to": rng.choice([None, None, None, 10, 3])}


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import Process, WinRS
    import requests

    h = run.host(sc["srv"])
    w = run.wsman()
    proc = sc.get("kind") == "proc"
    outage = bool(sc["srv"].get("windows"))
    if proc:
        sh = WinRS(w)
        r = run.call(sh.open)
        if not ok_or_outage(run, r, "opening a shell", outage, h):
            return
        p = Process(sh, "exe")
        r = run.call(p.begin_invoke)
        if not ok_or_outage(run, r, "starting a process", outage, h):
            return
        done = lambda: p.state == DONE  # noqa: E731
    else:
        pool = RunspacePool(w)
        r = run.call(pool.open)
        if r.exc is not None and isinstance(r.exc, (requests.ReadTimeout, requests.ConnectTimeout)):
            return gave_up(run, h, r, "opening a pool", outage, 0)
        if not ok_or_outage(run, r, "opening a pool", outage, h):
            return
        p = PowerShell(pool)
        p.add_script("x")
        r = run.call(p.begin_invoke)
        if not ok_or_outage(run, r, "starting a pipeline", outage, h):
            return
        done = lambda: p.state != 1  # noqa: E731
    for f in sc.get("auth_faults", []):
        h.arm(f)
    single_sleep = not sc.get("ws", {}).get("reconnection_retries") and sc.get("ws", {}).get("reconnection_backoff", 2.0) > 0
    for _ in range(2000):
        if done():
            break
        n0, s0 = len(h.requests), len(run.sim.sleeps)
        r = run.call(p.poll_invoke, timeout=sc.get("poll_to"))
        recs = h.requests[n0:]
        ids = {x["msgid"] for x in recs}
        bodies = {x["soap"] for x in recs}
        if not run.check(len(ids) <= 1 and len(bodies) <= 1, "same", "one poll sent %d different requests (%s)" % (max(len(ids), len(bodies)), [x["action"] for x in recs])):
            return
        sleeps = [s for _, s in run.sim.sleeps[s0:]]
        if single_sleep:
            if not run.check(all(b > a for a, b in zip([0.0] + sleeps, sleeps)), "pause", "pauses between the repeats were %r" % sleeps):
                return
            if sleeps:
                run.cover["retries_%d" % len(sleeps)] += 1
            run.check(len(sleeps) <= 5, "count", "%d repeats of one poll" % len(sleeps))
            if r.ok and not outage and len(recs) != len(sleeps) + 1 and not sc.get("auth_faults"):
                run.bad("count", "%d pauses but %d requests for one poll" % (len(sleeps), len(recs)))
                return
        if not r.ok:
            if isinstance(r.exc, (requests.ReadTimeout, requests.ConnectTimeout)):
                run.check(not done(), "partial", "the poll raised but the object says it is finished")
                return gave_up(run, h, r, "polling", outage, len(recs), sleeps if single_sleep else None)
            run.bad("poll", "polling %s" % r)
            return
    else:
        run.bad("hang", "never finished")
        return
    # a run of six is always answered by a raise, so getting here means everything was delivered
    if proc:
        sp = h.all_shells[0].all_commands[0]
        run.check((p.stdout, p.stderr, p.rc) == (sp.stdout, sp.stderr, sp.target.rc), "data", "got %.100r / %.100r / %r, the process gave %.100r / %.100r / %r" % (p.stdout, p.stderr, p.rc, sp.stdout, sp.stderr, sp.target.rc))
    else:
        c.check_pipe(run, c.pipe_of(h, p), p, "data")
    run.problems("refused")


def ok_or_outage(run: fw.Run, r: t.Any, what: str, outage: bool, h: t.Any) -> bool:
    if r.ok:
        return True
    if not outage:
        run.bad("other", "%s %s" % (what, r))
    return False


def timeouts(h: t.Any, msgid: str) -> int:
    return sum(1 for x in h.requests if x["msgid"] == msgid and (x.get("fault") in ("drop_req", "drop_resp") or x.get("fault") == "delay_resp"))


def gave_up(run: fw.Run, h: t.Any, r: t.Any, what: str, outage: bool, nrecs: int, sleeps: t.Optional[t.List] = None) -> None:
    """A timeout reached the caller: legitimate only as the sixth in a row."""
    run.cover["gave_up"] += 1
    if outage:
        if sleeps is not None:
            run.check(len(sleeps) == 5, "early", "%s gave up after %d repeats: %s" % (what, len(sleeps), r))
        return
    last = h.requests[-1]["msgid"] if h.requests else ""
    same = [x for x in h.requests if x["msgid"] == last]
    n = timeouts(h, last)
    if run.sc.get("auth_faults"):
        run.bad("early", "%s gave up although at most five timeouts occurred: %s" % (what, r))
        return
    run.check(same[-1]["action"] == "Receive" and n == 6 and len(same) == 6, "early", "%s gave up after %d deliveries and %d timeouts of the poll: %s" % (what, len(same), n, r))
