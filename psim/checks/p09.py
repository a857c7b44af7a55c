"""P09: pipeline state, error flag, stop, close and reuse follow the pipeline lifecycle."""
from __future__ import annotations

import random
import typing as t

from .. import clixml as cx
from .. import fw
from . import common as c

RUNS = {"quick": 2600, "thorough": 150000}

NOT_STARTED, RUNNING, STOPPING, STOPPED, COMPLETED, FAILED, DISCONNECTED = range(7)
OPS = ("begin", "begin", "invoke", "poll", "poll", "poll", "end", "stop", "stop", "close", "close", "connect_ps", "nested", "recmd", "clear", "empty", "cycle", "exit", "list")
REQ = {"begin": "Command", "invoke": "Command", "poll": "Receive", "end": "Receive", "stop": "Signal", "close": "Signal", "exit": "Signal", "connect_ps": "Connect", "cycle": "Disconnect"}


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    srv["by_name"] = True
    srv["own_cmd_ids"] = rng.random() < 0.5
    n = rng.choice([1, 2, 3])
    plans = []
    for _ in range(6):
        p = c.gen_plan(rng, rng.choice([1, 3, 6]), sleeps=(0.05, 3.0, 25.0), depth=1)
        if rng.random() < 0.25:
            p = p[:-1] + [["hang"]]
        plans.append(p)
    srv["plans"] = plans
    ops: t.List = []
    for _ in range(rng.choice([6, 14, 25])):
        o = rng.choice(OPS)
        k = rng.randrange(n)
        op: t.List = [o, k]
        if o == "recmd":
            op.append(rng.randrange(len(plans)))
        elif o == "poll":
            op.append(rng.choice([None, 1, 5]))
        ops.append(op)
    fl = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 2, 3])):
            i = rng.randrange(len(ops))
            on = REQ.get(ops[i][0])
            if on:
                kind = rng.choice(["fault", "fault", "http_err", "drop_resp", "rst_after", "rst_before"])
                f: t.Dict[str, t.Any] = {"on": on, "n": 1, "kind": kind}
                if kind == "fault":
                    f["args"] = {"code": rng.choice([5, 2150858843, 2150859113]), "reason": "no"}
                elif kind == "http_err":
                    f.update(status=rng.choice([500, 503, 404]), body="x", ctype="text/plain")
                fl.append([i, f])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": fw.gen_ws(rng), "n": n, "ops": ops, "op_faults": fl}


class M:
    """What is known of one pipeline object."""

    def __init__(self, ps: t.Any) -> None:
        self.ps = ps
        self.st = NOT_STARTED
        self.pipe: t.Any = None  # the server's pipeline of the current run
        self.free = True  # nothing registered under this command on the server
        self.had = False
        self.out0 = 0
        self.start: t.Dict[str, int] = {}
        self.kept: t.List = []  # what earlier runs left in output
        self.unknown = False
        self.from_disc = False
        self.cmds = True
        self.hang = False


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.exceptions import InvalidPipelineStateError, InvalidPSRPOperation
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    w = run.wsman()
    pool = RunspacePool(w)
    if not run.must(run.call(pool.open), "open", "opening a pool with no fault on it"):
        return
    ms = []
    for k in range(sc.get("n", 1)):
        ps = PowerShell(pool)
        ps.add_script("run %d" % k)
        ms.append(M(ps))
    doomed: t.Set[int] = set()
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    for i, op in enumerate(sc["ops"]):
        o, k = op[0], op[1]
        if k >= len(ms) or k in doomed or pool.state != 2:
            continue
        m = ms[k]
        ps = m.ps
        run.settle(1.0)
        if o == "end" and m.hang and m.st == RUNNING:
            o = "stop"  # would wait for ever, as asked
        if o in ("begin", "invoke") and m.st in (COMPLETED, FAILED, STOPPED) and not m.free:
            o = "close"  # run again only after close()
        if o == "invoke" and plan_of(sc, ps)[-1][0] == "hang":
            o = "begin"
        if o == "poll" and m.st != RUNNING:
            continue  # a poll is never refused; it is not asked of a pipeline that is not running
        if o in ("clear", "recmd", "empty") and m.st in (RUNNING, DISCONNECTED):
            continue
        if o == "exit" and m.st in (RUNNING, DISCONNECTED):
            o = "close"
        del fired[:]
        armed = [h.arm(f) for j, f in sc.get("op_faults", []) if j == i and REQ.get(o) == f["on"]]
        n0, e0 = len(h.requests), len(h.effects)
        states0 = [x.ps.state for x in ms]
        what = "%s of a pipeline in state %d" % (o, m.st)
        refuse: t.Optional[bool] = False
        run.cover["op:%s:%d" % (o, m.st)] += 1
        if o in ("begin", "invoke"):
            refuse = m.st in (RUNNING, STOPPING, DISCONNECTED)
            if not refuse:
                m.hang = plan_of(sc, ps)[-1][0] == "hang"
                # what this run adds follows what earlier runs left
                m.kept = list(ps.output)
                m.out0, m.start = len(m.kept), {x: len(getattr(ps.streams, x)) for x in c.KINDS}
            r = run.call(ps.begin_invoke if o == "begin" else ps.invoke)
            if not refuse and not m.cmds:
                if not run.check(isinstance(r.exc, InvalidPSRPOperation) and len(h.requests) == n0, "refuse", "%s without commands %s" % (what, r)):
                    return
                continue
        elif o == "poll":
            r = run.call(ps.poll_invoke, timeout=op[2] if len(op) > 2 else None)
        elif o == "end":
            r = run.call(ps.end_invoke)
        elif o == "stop":
            refuse = m.st not in (RUNNING, STOPPING, STOPPED)
            r = run.call(ps.stop)
        elif o == "close":
            refuse = m.st in (RUNNING, STOPPING, DISCONNECTED)
            if m.st not in (NOT_STARTED,) and not refuse and m.free:
                continue  # closed already
            r = run.call(ps.close)
        elif o == "exit":
            if m.free and m.st != NOT_STARTED:
                continue
            r = run.call(leave, ps)
        elif o == "connect_ps":
            refuse = m.st != DISCONNECTED
            r = run.call(ps.connect_async)
        elif o == "nested":
            refuse = m.st != RUNNING or m.from_disc
            r = run.call(ps.create_nested_power_shell)
            if not refuse:
                if not run.must(r, "nested", what) or not nested(run, h, r.value, k, m):
                    return
                continue
            elif m.st == RUNNING and m.from_disc:
                if not run.check(isinstance(r.exc, InvalidPSRPOperation) and len(h.requests) == n0, "refuse", "%s %s" % (what, r)):
                    return
                continue
        elif o == "recmd":
            ps.clear_commands()
            ps.add_script("run %d" % op[2])
            m.cmds = True
            continue
        elif o == "empty":
            ps.clear_commands()
            m.cmds = False
            continue
        elif o == "clear":
            r = run.call(ps.clear_streams)
            m.kept = []
            if not run.check(r.ok and not ps.output and not any(getattr(ps.streams, x) for x in c.KINDS), "clear", "clear_streams left something behind"):
                return
            continue
        elif o == "list":
            exp = sorted(str(x.ps.id) for j, x in enumerate(ms) if x.st == DISCONNECTED)
            r = run.call(pool.create_disconnected_power_shells)
            if not run.check(r.ok and set(exp) <= {str(x.id) for x in r.value} and all(x.state == DISCONNECTED for x in r.value), "list", "disconnected pipelines %r instead of %r" % (r, exp)):
                return
            continue
        elif o == "cycle":
            r = run.call(pool.disconnect)
            if not r.ok:
                break
            for x in ms:
                exp_st = DISCONNECTED if x.st == RUNNING else x.st
                if not run.check(x.ps.state == exp_st, "state", "a pipeline in state %d is in state %d after the pool was disconnected" % (x.st, x.ps.state)):
                    return
                x.st = exp_st
            if not run.check(len(h.requests) == n0 + 1, "contact", "disconnecting made %d requests" % (len(h.requests) - n0)):
                return
            # nothing runs through a disconnected pool
            if not run.must(run.call(pool.connect), "connect", "reconnecting the pool"):
                return
            for f in armed:
                f["used"] = True
            for x in ms:
                if not run.check(x.ps.state == x.st, "state", "reconnecting the pool changed a pipeline from state %d to %d" % (x.st, x.ps.state)):
                    return
            continue
        else:
            continue
        for f in armed:
            f["used"] = True
        fault = bool(fired)
        reqs = h.requests[n0:]
        sigs = [e for e in h.effects[e0:] if e["kind"] == "Signal"]
        if refuse:
            if not run.check(isinstance(r.exc, InvalidPipelineStateError), "refuse", "%s %s" % (what, r)):
                return
            if not run.check(not reqs, "contact", "%s was refused after %d requests to the server" % (what, len(reqs))):
                return
            if not run.check([x.ps.state for x in ms] == states0, "state", "%s was refused but changed a state: %r to %r" % (what, states0, [x.ps.state for x in ms])):
                return
            continue
        if not r.ok:
            if not run.check(fault, "raised", "%s %s with no fault" % (what, r)):
                return
            lost = any(f["kind"] in ("drop_resp", "rst_after", "rst_before") for f in fired)
            if o in ("invoke",) and any(x["action"] == "Receive" for x in reqs) and ps.state == RUNNING:
                started(run, h, m)
                doomed.add(k)  # what the failed poll carried is lost
                continue
            if not run.check(ps.state == m.st, "state", "%s %s and left it in state %d" % (what, r, ps.state)):
                return
            if not run.check(ps.had_errors == m.had, "flag", "%s %s and changed had_errors to %r" % (what, r, ps.had_errors)):
                return
            if lost or o in ("poll", "end"):
                doomed.add(k)
            if o in ("connect_ps",):
                continue
            continue
        # it went through
        if o in ("begin", "invoke"):
            if not started(run, h, m):
                return
            if not run.check(o == "invoke" or ps.state == RUNNING, "state", "%s left it in state %d" % (what, ps.state)):
                return
        if o == "connect_ps":
            m.st = RUNNING
            m.from_disc = True
        elif o == "stop":
            if m.st == RUNNING:
                if not run.check(len(sigs) == 1 and sigs[0]["cmd"] == m.pipe.id and sigs[0]["code"].endswith("ctrl_c"), "target", "%s signalled %r, the pipeline is command %s" % (what, sigs, m.pipe.id)):
                    return
                m.st = STOPPED
            elif not run.check(not reqs, "contact", "%s contacted the server" % what):
                return
        elif o in ("close", "exit"):
            if m.st == NOT_STARTED:
                if not run.check(not reqs, "contact", "%s contacted the server" % what):
                    return
            else:
                if not run.check(len(sigs) == 1 and (m.pipe is None or sigs[0]["cmd"] == m.pipe.id) and sigs[0]["code"].endswith("Terminate"), "target", "%s signalled %r" % (what, sigs)):
                    return
                if m.pipe is not None and not run.check(m.pipe.released, "release", "%s did not release it on the server" % what):
                    return
                m.free = True
        elif o in ("poll", "end", "invoke"):
            if o != "poll" and not run.check(ps.state in (COMPLETED, FAILED, STOPPED, DISCONNECTED, NOT_STARTED), "state", "%s returned in state %d" % (what, ps.state)):
                return
            if m.st == RUNNING and ps.state != RUNNING:
                if not run.check(ps.state == c.final_state(m.pipe), "state", "%s: state %d, the server reported %s" % (what, ps.state, m.pipe.state)):
                    return
                m.st = ps.state
                m.had = m.pipe.state == "Failed"
                d = c.compare_streams(m.pipe, ps, m.start, m.out0)
                if d:
                    run.bad("output", "%s, output of this run: %s" % (what, d))
                    return
                m.from_disc = False
            elif m.st == RUNNING and not run.check(m.pipe.state == "Running" or m.pipe.target.q or not any(x["action"] == "Receive" for x in reqs) or fault or not delivered(m, reqs), "state", "%s: still running although the server reported %s" % (what, m.pipe.state)):
                return
        if o not in ("stop", "close", "exit") and not run.check(not sigs, "target", "%s signalled %r" % (what, sigs)):
            return
        if not run.check(ps.state == m.st, "state", "%s left it in state %d instead of %d" % (what, ps.state, m.st)):
            return
        if not run.check(ps.had_errors == m.had, "flag", "%s: had_errors is %r" % (what, ps.had_errors)):
            return
        if not run.check(len(ps.output) >= len(m.kept) and all(a is b for a, b in zip(ps.output, m.kept)), "output", "%s changed the output of earlier runs" % what):
            return
        for j, x in enumerate(ms):
            if j != k and not run.check(x.ps.state == states0[j], "other", "%s changed the state of another pipeline from %d to %d" % (what, states0[j], x.ps.state)):
                return
    for f in h.faults:
        f["used"] = True
    run.settle(1.0)
    run.call(pool.close)
    run.problems("refused", ("psrp", "dup", "soap"))


def delivered(m: M, reqs: t.List) -> bool:
    """Whether an answer after the final state message reached the client."""
    return bool(m.pipe.target.done and not m.pipe.target.q and any(mid == r["msgid"] and st == 200 for r in reqs for mid, (st, _) in m.pipe.target.replay.items()))


def plan_of(sc: t.Dict, ps: t.Any) -> t.List:
    if not ps.commands:
        return [["end", "Completed"]]
    k = int(str(ps.commands[0].cmd).split()[-1])
    plans = sc["srv"].get("plans", [])
    return plans[k] if k < len(plans) and plans[k] else [["end", "Completed"]]


def leave(ps: t.Any) -> None:
    with ps:
        pass


def started(run: fw.Run, h: t.Any, m: M) -> bool:
    pipes = c.pipes_of(h, m.ps)
    fresh = [p for p in pipes if p is not m.pipe and not p.released and p.create is not None]
    if not run.check(len(fresh) == 1, "start", "starting a pipeline created %d on the server" % len(fresh)):
        return False
    m.pipe = fresh[0]
    m.st = RUNNING
    m.free = False
    m.had = False
    m.from_disc = False
    return True


def nested(run: fw.Run, h: t.Any, ps: t.Any, k: int, m: M) -> bool:
    """A nested pipeline starts flagged as nested and leaves its parent running."""
    if not run.check(ps.state == NOT_STARTED and ps.is_nested, "nested", "the nested pipeline starts in state %d, is_nested %r" % (ps.state, ps.is_nested)):
        return False
    ps.add_script("run 99")
    faults = [f for f in h.faults if not f.get("used")]
    for f in faults:
        f["used"] = True
    if not run.must(run.call(ps.invoke), "nested", "invoking a nested pipeline"):
        return False
    pipes = c.pipes_of(h, ps)
    if not run.check(len(pipes) == 1 and cx.prim(cx.get(pipes[0].create, "IsNested")) is True, "nested", "the nested pipeline was not sent as nested"):
        return False
    if not run.check(ps.state == COMPLETED, "nested", "the nested pipeline ended in state %d" % ps.state):
        return False
    if not run.must(run.call(ps.close), "nested", "closing a nested pipeline"):
        return False
    return run.check(m.ps.state == RUNNING, "nested", "creating a nested pipeline left its parent in state %d" % m.ps.state)
