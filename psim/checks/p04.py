"""P04: a request that changes server state is never delivered twice, and a lost outcome is never reported as success."""
from __future__ import annotations

import random
import typing as t

from .. import fw
from . import common as c
from . import session as s

RUNS = {"quick": 3600, "thorough": 200000}

KINDS = ("drop_req", "drop_resp", "drop_resp", "delay_resp", "rst_before", "rst_after", "rst_after", "fin_before", "fin_after", "fin_after", "trunc_resp", "http_err", "http_err", "close_after", "dead_after", "slow_req")


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    if rng.random() < 0.35:
        ws["reconnection_retries"] = rng.choice([1, 3, 5])
        ws["reconnection_backoff"] = rng.choice([0.1, 2.0])
    kind = rng.choice(["proc", "pool", "pool"])
    big = rng.choice([0, 0, 30000, 200000])
    if big:
        srv["pool"]["frag"] = rng.choice([32768, 4096, [500, 9000]])
        srv.pop("resp_bytes", None)
        srv["resp_units"] = [20, 60]
    ops, plans = s.gen_ops(rng, kind, rng.choice([4, 8, 14]), big)
    srv["procs" if kind == "proc" else "plans"] = plans
    srv["by_name"] = True
    if rng.random() < 0.1:
        srv["idle_close"] = rng.choice([1.0, 20.0])
    rt = ws.get("read_timeout", 30)
    fl: t.List = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(ops))
        cl = [x for x in s.CLASSES[ops[i][0]] if x != "Receive"] or ["Receive"]
        f: t.Dict[str, t.Any] = {"on": rng.choice(cl), "n": rng.choice([1, 1, 1, 2, 3]) if ops[i][0] in ("begin", "invoke") else 1, "kind": rng.choice(KINDS)}
        if f["on"] == "Receive" and f["kind"] == "slow_req":
            f["kind"] = "drop_req"  # the overtaken poll would take the final state with it, after which nothing ends the wait
        if f["kind"] == "delay_resp":
            f["secs"] = rt + rng.choice([-1.0, 1.0, 10.0, 100.0])
        elif f["kind"] == "slow_req":
            f["secs"] = rt + rng.choice([1.0, 10.0])
        elif f["kind"] == "trunc_resp":
            f.update(frac=rng.choice([0.001, 0.3, 0.99]), how=rng.choice(["fin", "rst", "dead"]))
        elif f["kind"] == "http_err":
            f.update(status=rng.choice([500, 503, 503, 429, 425, 502, 504, 400, 401, 408]), body=rng.choice(["", "busy"]))
        fl.append([i, f])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "kind": kind, "ops": ops, "op_faults": fl}


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    ses = s.Session(run, h, sc.get("kind", "pool"))
    doomed: t.Set[int] = set()
    pool_doomed = False
    for i, op in enumerate(sc["ops"]):
        if op[0] in ("end", "poll", "invoke", "close_ps") and op[1] in doomed:
            continue  # the server may rightly wait for ever for input that failed to arrive
        if pool_doomed and op[0] in s.POOL_WAIT:
            break  # what it waits for may have been taken by the poll that failed
        armed = [h.arm(f) for j, f in sc.get("op_faults", []) if j == i]
        r0, e0, f0 = len(h.requests), len(h.effects), sum(run.sim.fired.values())
        m0 = [len(sh.pool.messages) for sh in h.all_shells if sh.pool]
        r = ses.do(op)
        if r is None:
            for f in h.faults:
                f["used"] = True
            continue
        if not r.ok and op[0] in s.POOL_WAIT and run.sim.fired:
            pool_doomed = True
        if not r.ok and len(op) > 1 and op[0] in ("begin", "invoke", "send", "signal", "stop", "poll", "end"):
            doomed.add(op[1])
        if len(op) > 1 and op[0] in ("invoke", "poll", "end") and sum(run.sim.fired.values()) > f0:
            doomed.add(op[1])  # a poll may have taken the final state with it, retried or not
        late = [f for f in armed if f["kind"] in ("delay_resp", "slow_req")]
        run.settle(3.0)
        if late and any(x.get("fault") for x in h.requests[r0:]):
            run.settle(late[0]["secs"] + 5)
        recs = h.requests[r0:]
        allow = s.ALLOWED[op[0]]
        counts: t.Dict[str, int] = {}
        for x in recs:
            if x["action"] != "Receive":
                counts[x["action"]] = counts.get(x["action"], 0) + 1
        for a, n in counts.items():
            if n > allow.get(a, 0):
                run.bad("twice", "%s sent %d %s requests%s" % (op[0], n, a, " (one outcome was lost)" if any(x.get("fault") for x in recs) else ""))
                return
        for a in ("Create", "Delete", "Command", "Disconnect", "Reconnect"):
            ids = {x["msgid"] for x in recs}
            n = sum(1 for e in h.effects[e0:] if e["kind"] == a and e.get("msgid") in ids)
            if not run.check(n <= 1, "twice", "the server executed %d %s requests during one %s" % (n, a, op[0])):
                return
        for f in h.faults:
            f["used"] = True  # what did not fire in this operation does not fire later
        # the outcome of a state-changing request was lost: the caller must hear of it
        lost = [x for x in recs if x["action"] in s.STATE_CHANGING and x.get("fault") in ("drop_req", "drop_resp", "rst_before", "rst_after", "fin_before", "fin_after", "trunc_resp", "http_err", "slow_req") or x.get("fault") == "delay_resp" and x["action"] in s.STATE_CHANGING and late and late[0]["secs"] > sc.get("ws", {}).get("read_timeout", 30)]
        if lost:
            run.cover["outcome_lost:" + lost[0]["action"]] += 1
            if not run.check(not r.ok, "silent", "%s %s although the answer to its %s request was lost (%s)" % (op[0], r, lost[0]["action"], lost[0]["fault"])):
                return
        semantic(run, h, ses)
        for k, text in h.problems:
            if k in ("dup", "input"):
                run.bad("twice", "during %s: %s" % (op[0], text))
                return
        if run.viol:
            return


ONCE = ("CREATE_PIPELINE", "GET_COMMAND_METADATA", "END_OF_PIPELINE_INPUT")


def semantic(run: fw.Run, h: t.Any, ses: s.Session) -> None:
    """Effects never exceed what was asked for, message by message."""
    for sh in h.all_shells:
        if sh.pool is None:
            continue
        for p in sh.pool.pipes:
            given = []
            for k, ps in ses.pipes.items():
                if str(ps.id).upper() == p.pid:
                    given = ses.inputs.get(k, [])
            got = [x[1] for x in p.inputs]
            if got != given[: len(got)]:
                run.bad("input", "pipeline input %.200r is not a prefix of what was given, %.200r" % (got, given))
                return
            if not run.check(p.input_ended <= 1, "twice", "end of input signalled %d times" % p.input_ended):
                return
        ids = [x["ci"] for x in sh.pool.calls]
        if not run.check(len(ids) == len(set(ids)) or getattr(ses, "adopted", None), "twice", "pool call ids %r repeat" % ids):
            return
        n = s.pipe_messages(sh.pool)
        for (m, pid), cnt in n.items():
            if m in ONCE and cnt > 1:
                run.bad("twice", "%s delivered %d times for one pipeline" % (m, cnt))
                return
