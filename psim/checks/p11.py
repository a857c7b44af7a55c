"""P11: disconnecting and reconnecting loses no pipeline and no output."""
from __future__ import annotations

import random
import types
import typing as t

from .. import fw, values
from . import common as c

RUNS = {"quick": 2200, "thorough": 200000}

PRE = ("rst_before", "http_err", "drop_req", "fault", "fin_before")


def gen_fault(rng: random.Random, on: str) -> t.Dict:
    f: t.Dict[str, t.Any] = {"on": on, "n": 1, "kind": rng.choice(PRE)}
    if f["kind"] == "http_err":
        f.update(status=rng.choice([500, 503]), body="x", ctype="text/plain")
    elif f["kind"] == "fault":
        f["args"] = {"code": 5, "reason": "no"}
    return f


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    srv["by_name"] = True
    nplans = rng.randint(1, 5)
    srv["plans"] = [c.gen_plan(rng, rng.choice([3, 8, 20]), big=rng.choice([0, 0, 3000]), depth=1, sleeps=(0.05, 1.0, 3.0, 25.0, 70.0), pool_msgs=True) for _ in range(nplans)]
    if rng.random() < 0.25:
        srv["pool"]["connect_split"] = True
    if rng.random() < 0.25:
        srv["pool"]["connect_delay"] = rng.choice([0.05, 3.0, 25.0])
    npools = rng.choice([1, 1, 2, 3])
    phases: t.List[t.Dict] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops: t.List[t.List] = []
        for _ in range(rng.randint(1, 8)):
            i = rng.randrange(npools)
            r = rng.random()
            if r < 0.45:
                ops.append(["begin", i, rng.randrange(nplans)])
            elif r < 0.52:
                ops.append(["new", i, rng.randrange(nplans)])
            elif r < 0.7:
                ops.append(["poll", i, rng.randrange(4)])
            elif r < 0.8:
                ops.append(["wait", i, rng.randrange(4)])
            elif r < 0.85:
                ops.append(["close", i, rng.randrange(4)])
            else:
                ops.append(["sleep", rng.choice([0.01, 0.5, 3.0, 30.0])])
        phases.append(
            {
                "ops": ops,
                "kind": rng.choice(["same", "same", "new", "new", "vanish", "lost"]),
                "same_ws": rng.random() < 0.3,
                "pools": sorted(rng.sample(range(npools), rng.randint(1, npools))),
                "gap": rng.choice([0.0, 0.5, 5.0, 40.0, 200.0]),
                "how": [rng.choice(["connect", "async", "async", "skip"]) for _ in range(6)],
                "faults": [[on, gen_fault(rng, on)] for on in ("Disconnect", "Reconnect", "Connect", "Enumerate", "ConnectCmd") if rng.random() < 0.12],
            }
        )
    return {
        "net": fw.gen_net(rng),
        "srv": srv,
        "ws": ws,
        "confs": [rng.choice(["Microsoft.PowerShell", "Microsoft.PowerShell", "PowerShell.7", "my conf"]) for _ in range(npools)],
        "winrs": rng.random() < 0.3,
        "phases": phases,
        "rfaults": c.receive_faults(rng, rng.choice([1, 3]), ws.get("read_timeout", 30)) if rng.random() < 0.3 else [],
    }


class Slot:
    """One pool and the objects through which the current client sees it."""

    def __init__(self, pool: t.Any, shell: t.Any) -> None:
        self.pool = pool
        self.shell = shell
        self.ps: t.List[t.Any] = []  # current client's objects, in order of creation
        self.pipe: t.Dict[int, t.Any] = {}  # id(ps) -> server pipeline
        self.views: t.List[t.Tuple[t.Any, t.List[t.Any]]] = []  # per server pipeline every object that received for it

    def views_of(self, pipe: t.Any) -> t.List[t.Any]:
        return next(v for p, v in self.views if p is pipe)

    def started(self, ps: t.Any, pipe: t.Any) -> None:
        self.pipe[id(ps)] = pipe
        for p, v in self.views:
            if p is pipe:
                v.append(ps)
                return
        self.views.append((pipe, [ps]))


def merged(views: t.Sequence[t.Any]) -> t.Any:
    m = types.SimpleNamespace(output=[o for v in views for o in v.output], state=views[-1].state)
    m.streams = types.SimpleNamespace(**{k: [o for v in views for o in getattr(v.streams, k)] for k in c.KINDS})
    return m


def snap(ps: t.Any) -> t.Tuple:
    return (ps.state, len(ps.output), tuple(len(getattr(ps.streams, k)) for k in c.KINDS), ps.had_errors)


def consumed(pipe: t.Any) -> bool:
    """The final state has been handed to a client, nothing is left to wait for."""
    return pipe.target.done and not pipe.target.q and not pipe.target.cut


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import WinRS

    h = run.host(sc["srv"])
    ws = run.wsman()
    if sc.get("winrs"):
        other = WinRS(ws)
        if not run.must(run.call(other.open), "open", "opening a WinRS shell"):
            return
    slots: t.List[Slot] = []
    for conf in sc["confs"]:
        pool = RunspacePool(ws, configuration_name=conf)
        if not run.must(run.call(pool.open), "open", "opening a pool with no fault on it"):
            return
        slots.append(Slot(pool, h.all_shells[-1]))
    for f in sc.get("rfaults", []):
        h.arm(f)
    late = bool(sc["srv"]["pool"].get("connect_split") or sc["srv"]["pool"].get("connect_delay"))
    n = len(slots)
    for ph in sc["phases"]:
        if not do_ops(run, h, slots, ph["ops"], PowerShell, late):
            return
        chosen = [slots[i] for i in ph["pools"] if i < n]
        faults = dict((k, f) for k, f in ph.get("faults", []))
        for s in chosen:
            if not leave(run, h, s, ph["kind"], faults):
                return
        run.settle(ph["gap"])
        if ph["kind"] == "same":
            for s in chosen:
                before = [(ps, snap(ps)) for ps in s.ps]
                if not retry(run, h, s.pool.connect, "Reconnect", faults, "reconnecting the pool"):
                    return
                if not run.check(s.pool.state == 2, "state", "after connect() the pool is in state %d" % s.pool.state):
                    return
                if not all(run.check(snap(ps) == b, "kept", "pool.connect() changed a pipeline from %r to %r" % (b, snap(ps))) for ps, b in before):
                    return
                if not attach(run, h, s, [ps for ps in s.ps if ps.state == 6], ph["how"], faults):
                    return
        else:
            ws = run.wsman() if not ph["same_ws"] or ph["kind"] != "new" else ws
            if not adopt(run, h, slots, chosen, ws, ph, faults, RunspacePool, late):
                return
        run.cover["switch:" + ph["kind"]] += 1
    for s in slots:
        for ps in list(s.ps):
            pipe = s.pipe.get(id(ps))
            if pipe is None or pipe.released:
                continue
            if consumed(pipe) and ps.state in (1, 6):
                continue
            if ps.state == 6 and not run.must(run.call(ps.connect_async), "attach", "connecting to a pipeline"):
                return
            if ps.state == 1 and not run.must(run.call(ps.end_invoke), "wait", "waiting for a pipeline"):
                return
            if not done(run, s, ps, pipe):
                return
        if s.pool.state == 9:  # late state message, see adopt()
            if not run.must(run.call(s.pool.connect), "reconnect", "connecting again"):
                return
        if not run.must(run.call(s.pool.close), "close", "closing a pool") or not run.check(s.shell.deleted, "close", "close() returned, the shell is still there"):
            return
    run.problems("refused", ("psrp", "dup", "soap"))


def done(run: fw.Run, s: Slot, ps: t.Any, pipe: t.Any) -> bool:
    views = s.views_of(pipe)
    run.cover["views:%d" % len(views)] += 1
    return c.check_pipe(run, pipe, merged(views), "output", "pipeline seen through %d objects" % len(views))


def do_ops(run: fw.Run, h: t.Any, slots: t.List[Slot], ops: t.List, PowerShell: t.Any, late: bool) -> bool:
    for op in ops:
        o = op[0]
        if o == "sleep":
            run.settle(op[1])
            continue
        if op[1] >= len(slots):
            continue
        s = slots[op[1]]
        if o in ("begin", "new"):
            if s.pool.state == 9 and late:
                continue
            ps = PowerShell(s.pool)
            ps.add_script("run %d" % op[2])
            s.ps.append(ps)
            if o == "new":
                continue
            n0 = len(s.shell.pool.pipes)
            if not run.must(run.call(ps.begin_invoke), "begin", "begin_invoke"):
                return False
            if not run.check(len(s.shell.pool.pipes) == n0 + 1, "begin", "begin_invoke started %d pipelines" % (len(s.shell.pool.pipes) - n0)):
                return False
            s.started(ps, s.shell.pool.pipes[n0])
            continue
        if op[2] >= len(s.ps):
            continue
        ps = s.ps[op[2]]
        pipe = s.pipe.get(id(ps))
        if pipe is not None and ps.state == 1 and consumed(pipe):
            continue
        if o == "poll" and ps.state == 1:
            if not run.must(run.call(ps.poll_invoke, 5), "poll", "polling a pipeline"):
                return False
        elif o == "wait" and ps.state == 1:
            if not run.must(run.call(ps.end_invoke), "wait", "waiting for a pipeline") or not done(run, s, ps, pipe):
                return False
        elif o == "close" and ps.state in (3, 4, 5) and not pipe.released:
            if not run.must(run.call(ps.close), "closing", "closing a finished pipeline"):
                return False
    return True


def retry(run: fw.Run, h: t.Any, fn: t.Callable, on: str, faults: t.Dict, what: str) -> bool:
    """Call fn, with a fault that stops its request from being carried out if one is planned; it then has to work the second time."""
    f = faults.pop(on, None)
    if f is not None:
        f = h.arm(dict(f, on="Connect" if on == "ConnectCmd" else on))
        fired: t.List = []
        h.on_fire = fired.append
        r = run.call(fn)
        f["used"] = True
        if any(x is f for x in fired):
            run.cover["fault:%s:%s" % (on, f["kind"])] += 1
            if not run.check(not r.ok, "masked", "%s %s though its request failed with %s" % (what, r, f["kind"])):
                return False
        elif not run.must(r, "reconnect", what):
            return False
        if r.ok:
            return True
    r = run.call(fn)
    retry.value = r.value  # type: ignore[attr-defined]
    return run.must(r, "reconnect", what)


def leave(run: fw.Run, h: t.Any, s: Slot, kind: str, faults: t.Dict) -> bool:
    """The client leaves the pool: it disconnects, loses the answer to its disconnect, or is gone."""
    before = [(ps, snap(ps)) for ps in s.ps]
    if s.pool.state == 9:
        # connected by a new client that has not seen the state message yet
        if not run.must(run.call(s.pool.connect), "reconnect", "connecting again"):
            return False
    if kind == "vanish":
        s.shell.state = "Disconnected"  # what WinRM does with the shell of a client that is gone
        for tg in [s.shell.target] + [x.target for x in s.shell.commands.values()]:
            tg.pending = None
        return True
    if kind == "lost":
        f = h.arm({"on": "Disconnect", "n": 1, "kind": "rst_after"})
        r = run.call(s.pool.disconnect)
        f["used"] = True
        return run.check(not r.ok, "masked", "disconnect() %s though the answer was lost" % r)
    if not retry(run, h, s.pool.disconnect, "Disconnect", faults, "disconnecting"):
        return False
    if not run.check(s.shell.state == "Disconnected" and s.pool.state == 9, "state", "after disconnect() the shell is %s, the pool in state %d" % (s.shell.state, s.pool.state)):
        return False
    for ps, b in before:
        exp = (6 if b[0] == 1 else b[0],) + b[1:]
        if not run.check(snap(ps) == exp, "kept", "disconnect() changed a pipeline from %r to %r" % (b, snap(ps))):
            return False
    return True


def attach(run: fw.Run, h: t.Any, s: Slot, todo: t.List[t.Any], how: t.List[str], faults: t.Dict) -> bool:
    for j, ps in enumerate(todo):
        pipe = s.pipe[id(ps)]
        w = how[j % len(how)] if how else "skip"
        if w == "skip" or (w == "connect" and consumed(pipe)):
            continue
        if w == "async":
            if not retry(run, h, ps.connect_async, "ConnectCmd", faults, "connecting to a pipeline"):
                return False
            if not run.check(ps.state == 1, "state", "a pipeline connected to is in state %d" % ps.state):
                return False
        else:
            n0 = len(ps.output)
            if not retry(run, h, ps.connect, "ConnectCmd", faults, "connecting to a pipeline and waiting"):
                return False
            if not done(run, s, ps, pipe):
                return False
        run.cover["attach:" + w] += 1
    return True


def adopt(run: fw.Run, h: t.Any, slots: t.List[Slot], chosen: t.List[Slot], ws: t.Any, ph: t.Dict, faults: t.Dict, RunspacePool: t.Any, late: bool) -> bool:
    retry.value = None  # type: ignore[attr-defined]
    box: t.List = []

    def find() -> t.Any:
        v = RunspacePool.get_runspace_pools(ws)
        box[:] = v
        return v

    if not retry(run, h, find, "Enumerate", faults, "listing the pools"):
        return False
    exp = sorted(s.shell.id for s in slots)
    got = sorted(str(p.id).upper() for p in box)
    if not run.check(exp == got, "list", "the server has pools %r, get_runspace_pools() lists %r" % (exp, got)):
        return False
    for p in box:
        s = next(x for x in slots if x.shell.id == str(p.id).upper())
        have = sorted(s.shell.commands)
        ps_list = p.create_disconnected_power_shells()
        ids = sorted(str(x.id).upper() for x in ps_list)
        if not run.check(have == ids, "list", "the pool has pipelines %r, create_disconnected_power_shells() lists %r" % (have, ids)):
            return False
        if not run.check(all(x.state == 6 and x.runspace_pool is p for x in ps_list) and len(p.pipelines) == len(have), "list", "the pipelines listed are not all disconnected pipelines of their pool"):
            return False
        if s not in chosen:
            continue
        if not retry(run, h, p.connect, "Connect", faults, "connecting to the pool as a new client"):
            return False
        if p.state != 2:
            # recorded finding: the state message comes with a later response than the first
            if late and p.state == 9:
                run.bad("new-client-state", "connect() to a pool of another client returned with the pool in state %d" % p.state)
            else:
                run.bad("state", "connect() to a pool of another client returned with the pool in state %d" % p.state)
                return False
        srv = s.shell.pool
        if not run.check((p.min_runspaces, p.max_runspaces) == (srv.min, srv.max), "limits", "connected to a pool with limits %r, recorded %r" % ((srv.min, srv.max), (p.min_runspaces, p.max_runspaces))):
            return False
        s.pool = p
        s.ps = []
        for x in ps_list:
            pipe = s.shell.commands[str(x.id).upper()]
            s.ps.append(x)
            s.started(x, pipe)
        if not attach(run, h, s, list(s.ps), ph["how"], faults):
            return False
    return True
