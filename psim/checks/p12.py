"""P12: runspace count and reset calls reflect the server's answer to that very call."""
from __future__ import annotations

import random
import typing as t

from .. import fw, values
from . import common as c

RUNS = {"quick": 1800, "thorough": 200000}

BIG = (0, 1, 2, 5, 2**31 - 1, 2**31, 2**40)


def gen_call(rng: random.Random) -> t.Dict:
    p: t.Dict[str, t.Any] = {}
    if rng.random() < 0.3:
        p["ok"] = False
    if rng.random() < 0.4:
        p["count"] = rng.choice(BIG)
    if rng.random() < 0.5:
        p["delay"] = rng.choice([0.05, 2.0, 25.0, 70.0, 200.0])
    for k in ("before", "after"):
        if rng.random() < 0.35:
            p[k] = [c.gen_pool_msg(rng) if rng.random() < 0.8 else ["warning", values.text(rng)] for _ in range(rng.randint(1, 3))]
    return p


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    srv["by_name"] = True
    srv["plans"] = [c.gen_plan(rng, 4, depth=1, sleeps=(0.05, 3.0, 25.0), pool_msgs=True) for _ in range(3)]
    ops: t.List[t.List] = []
    n = rng.choice([2, 5, 9, 14])
    k = 0
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            ops.append([rng.choice(["min", "max"]), rng.choice([1, 2, 3, 4, 5, 7, 0, -1, 100, 2**31 - 1])])
        elif r < 0.65:
            ops.append(["avail"])
        elif r < 0.78:
            ops.append(["reset"])
        elif r < 0.88:
            ops.append(["begin", k % 3])
            k += 1
        elif r < 0.95:
            ops.append(["poll", rng.randrange(3)])
        else:
            ops.append(["event"])
    srv["pool"]["avail"] = [gen_call(rng) for _ in range(n)]
    fl: t.List = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2])):
            on = rng.choice(["Send", "Send", "Receive", "Receive"])
            kind = rng.choice(["drop_resp", "rst_after", "rst_before", "http_err", "fin_after", "drop_req"] if on == "Send" else ["drop_resp", "drop_req", "http_err", "fin_before", "fault"])
            f: t.Dict[str, t.Any] = {"on": on, "n": rng.choice([1, 1, 2]), "kind": kind}
            if kind == "http_err":
                f.update(status=rng.choice([500, 503]), body="x", ctype="text/plain")
            elif kind == "fault":
                f["args"] = {"code": 5, "reason": "no"}
            fl.append([rng.randrange(n), f])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "ops": ops, "op_faults": fl, "min0": rng.randint(1, 3), "max0": rng.randint(3, 6), "pre": [rng.choice(["min", "max"]), rng.randint(1, 9)] if rng.random() < 0.3 else None}


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.exceptions import InvalidPSRPOperation
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    pool = RunspacePool(run.wsman(), min_runspaces=sc.get("min0", 1), max_runspaces=sc.get("max0", 5))
    pre = sc.get("pre")
    if pre:
        setattr(pool, pre[0] + "_runspaces", pre[1])
        if not run.check(not h.requests, "contact", "setting a limit before the pool is open contacted the server"):
            return
    if not run.must(run.call(pool.open), "open", "opening a pool with no fault on it"):
        return
    srv = h.all_shells[0].pool
    rec = {"min": pool.min_runspaces, "max": pool.max_runspaces}
    if not run.check((srv.min, srv.max) == (rec["min"], rec["max"]) and (not pre or rec[pre[0]] == pre[1]), "limits", "opened with limits %r, the client records %r, asked for %r" % ((srv.min, srv.max), rec, pre)):
        return
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    open_calls: t.List[t.Tuple[int, str, int]] = []  # answers not yet seen: (index of the call, limit, value)
    pipes: t.List[t.Any] = []
    for i, op in enumerate(sc["ops"]):
        o = op[0]
        run.settle(0.5)
        del fired[:]
        armed = [h.arm(f) for j, f in sc.get("op_faults", []) if j == i and o in ("min", "max", "avail", "reset")]
        n0, c0 = len(h.requests), len(srv.calls)
        what = "%s with limits %r" % (op, rec)
        if o in ("min", "max"):
            r = run.call(setattr, pool, o + "_runspaces", op[1])
            if op[1] == rec[o]:
                for f in armed:
                    f["used"] = True
                if not run.check(r.ok and len(h.requests) == n0, "noop", "%s, already so, %s and made %d requests" % (what, r, len(h.requests) - n0)):
                    return
                continue
        elif o == "avail":
            r = run.call(pool.get_available_runspaces)
        elif o == "reset":
            r = run.call(pool.reset_runspace_state)
            if pool.protocol_version in ("2.1", "2.2"):
                for f in armed:
                    f["used"] = True
                if not run.check(isinstance(r.exc, InvalidPSRPOperation) and len(h.requests) == n0, "refuse", "%s against protocol %s %s" % (what, pool.protocol_version, r)):
                    return
                continue
        elif o == "begin":
            ps = PowerShell(pool)
            ps.add_script("run %d" % op[1])
            if not run.must(run.call(ps.begin_invoke), "begin", what):
                return
            pipes.append(ps)
            continue
        elif o == "poll":
            if len(pipes) > op[1] and pipes[op[1]].state == 1 and not run.must(run.call(pipes[op[1]].poll_invoke), "poll", what):
                return
            continue
        else:
            srv.do(["event", i, "ev%d" % i, ["S", "x"]], h.all_shells[0].target)
            continue
        for f in armed:
            f["used"] = True
        run.cover["call:" + o] += 1
        if not run.check(len(srv.calls) - c0 <= 1, "count", "%s made %d calls on the server" % (what, len(srv.calls) - c0)):
            return
        call = srv.calls[c0] if len(srv.calls) > c0 else None
        if call is not None:
            typ = {"min": "SET_MIN_RUNSPACES", "max": "SET_MAX_RUNSPACES", "avail": "GET_AVAILABLE_RUNSPACES", "reset": "RESET_RUNSPACE_STATE"}[o]
            if not run.check(call["type"] == typ and (o not in ("min", "max") or call["value"] == op[1]), "call", "%s asked the server %r" % (what, call)):
                return
        answered = not r.ok and isinstance(r.exc, InvalidPSRPOperation)
        if fired:
            lossy = [f for f in fired if f["on"] == "Receive" and f["kind"] in ("http_err", "fin_before", "fault")] or [f for f in fired if f["on"] == "Send"]
            if not r.ok and not answered:
                # the call failed; what the server made of it arrives with a later poll
                if not run.check(lossy, "raised", "%s %s though the fault %r does not stop it" % (what, r, fired)):
                    return
                if not late_answers(run, srv, pool, rec, open_calls, "%s %s" % (what, r)):
                    return
                if any(f["on"] == "Receive" and f["kind"] == "drop_resp" for f in fired):
                    return  # the poll that failed took answers with it
                if call is not None:
                    open_calls.append((c0, o, op[1] if len(op) > 1 else 0))
                run.cover["failed:" + fired[0]["kind"]] += 1
                continue
        if not run.check(call is not None, "call", "%s %s without the server having been asked" % (what, r)):
            return
        # every earlier answer that was sent before this one has been taken in
        for c1, o1, v1 in sorted(open_calls, key=lambda x: srv.calls[x[0]].get("seq", 1 << 70)):
            if srv.calls[c1].get("seq", 1 << 70) < call.get("seq", 0):
                open_calls.remove((c1, o1, v1))
                if o1 in rec and srv.calls[c1]["answer"] is True:
                    rec[o1] = v1
                    run.cover["late_confirmation"] += 1
        if o == "avail":
            if not run.must(r, "result", what) or not run.check(r.value == call["answer"] and type(r.value) is int, "result", "%s %s, the server answered %r" % (what, r, call["answer"])):
                return
        else:
            ok = call["answer"]
            if ok:
                if not run.must(r, "result", "%s, confirmed by the server," % what):
                    return
                if o in rec:
                    rec[o] = op[1]
            elif not run.check(answered, "result", "%s, refused by the server, %s" % (what, r)):
                return
        if not late_answers(run, srv, pool, rec, open_calls, what):
            return
        delay = call["plan"].get("delay", 0.0)
        if not run.check(r.t1 >= call["t"] + delay, "early", "%s returned before the server answered" % what):
            return
    for f in h.faults:
        f["used"] = True
    for ps in pipes:
        if not run.must(run.call(ps.end_invoke), "pipe", "waiting for a pipeline"):
            return
        if not c.check_pipe(run, c.pipe_of(h, ps), ps, "pipe"):
            return
    # everything that came along with the answers was taken in as well
    run.settle(300.0)
    r = run.call(pool.get_available_runspaces)
    if not run.must(r, "result", "asking for the available runspaces"):
        return
    call = srv.calls[-1]
    low = sum(1 for k, _ in srv.emitted[: call["emitted"]] if k == "event")
    high = sum(1 for k, _ in srv.emitted if k == "event")
    if not run.check(low <= len(pool.user_events) <= high, "events", "%d events recorded, the server sent %d before its last answer and %d in all" % (len(pool.user_events), low, high)):
        return
    run.must(run.call(pool.close), "close", "closing")
    run.problems("refused", ("psrp", "dup", "soap"))


def late_answers(run: fw.Run, srv: t.Any, pool: t.Any, rec: t.Dict, open_calls: t.List, what: str) -> bool:
    """A recorded limit is the last one confirmed, or one confirmed since by the answer to a call that failed."""
    for w, now in (("min", pool.min_runspaces), ("max", pool.max_runspaces)):
        late = [x for x in open_calls if x[1] == w and x[2] == now and srv.calls[x[0]]["answer"] is True and "seq" in srv.calls[x[0]]]
        if now != rec[w] and not run.check(late, "limits", "after %s the recorded %s is %d, the server confirmed %d last" % (what, w, now, rec[w])):
            return False
        rec[w] = now
    return True
