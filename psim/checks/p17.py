"""P17: liveness probes answer truthfully, promptly, without new connections and without side effects."""
from __future__ import annotations

import random
import typing as t

from .. import fw
from . import common as c

RUNS = {"quick": 1600, "thorough": 200000}

OPTIMEOUT, SELECTORS = 2150858793, 2150858843
BREAKS = ("drop_req", "drop_resp", "rst_before", "rst_after", "fin_before", "fin_after", "trunc_resp")
ANSWERS = ("fault", "http_err", "bad_relates", "garbage_200")


def gen_fault(rng: random.Random) -> t.Dict:
    r = rng.random()
    f: t.Dict[str, t.Any] = {"on": "Get", "n": 1}
    if r < 0.4:
        f["kind"] = rng.choice(BREAKS)
        if f["kind"] == "trunc_resp":
            f.update(how=rng.choice(["fin", "rst", "dead"]), frac=rng.choice([0.01, 0.5, 1.0]))
    elif r < 0.7:
        f["kind"] = rng.choice(ANSWERS)
        if f["kind"] == "fault":
            code = rng.choice([OPTIMEOUT, SELECTORS, 5, 2150858778, 2150858793 + 1, 995, 2150859113])
            f["args"] = {"code": code, "reason": rng.choice(["x", "The service is busy & <cannot> answer.", "\u00e9\u6f22 \U0001f600"]), "status": rng.choice([500, 400])}
        elif f["kind"] == "http_err":
            f.update(status=rng.choice([500, 503, 404, 403, 400]), body=rng.choice(["", "<html>x</html>", "gone"]))
        elif f["kind"] == "bad_relates":
            f["how"] = rng.choice(["other", "none", "stale", "prev"])
        else:
            f["body"] = rng.choice(["", "<a/>", "ok", "<s:Envelope xmlns:s='http://www.w3.org/2003/05/soap-envelope'><s:Header/><s:Body/></s:Envelope>"])
    else:
        f.update(kind=rng.choice(["delay_resp", "slow_req"]), secs=rng.choice([0.5, 3.0, 6.5, 20.0, 29.0, 45.0, 100.0]))
    return f


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    srv["plans"] = [c.gen_plan(rng, 3, depth=1, sleeps=(0.05, 3.0)) for _ in range(8)]
    if rng.random() < 0.25:
        srv["proxy"] = True
    ops: t.List[t.List] = []
    for _ in range(rng.choice([2, 4, 7, 10])):
        r = rng.random()
        if r < 0.55:
            ops.append(["alive", rng.choice([None, None, 1, 2, 4, 5, 30]), gen_fault(rng) if rng.random() < 0.35 else None])
        elif r < 0.63:
            ops.append(["run"])
        elif r < 0.68:
            ops.append(["begin"])
        elif r < 0.75:
            ops.append(["lost", rng.choice(["fin", "rst", "dead"])])
        elif r < 0.8:
            ops.append(["gone"])
        elif r < 0.85:
            ops.append(["idle"])
        elif r < 0.9:
            ops.append(["stall", rng.choice([1.5, 4.0, 6.5, 25.0, 60.0, 0])])
        elif r < 0.93:
            ops.append(["disconnect"])
        else:
            ops.append(["sleep", rng.choice([1.0, 100.0])])
    if rng.random() < 0.3:
        ws["reconnection_retries"] = rng.choice([1, 3])
        ws["reconnection_backoff"] = 0.5
    return {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "ops": ops, "unopened": rng.random() < 0.05}


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    wsman = run.wsman()
    pool = RunspacePool(wsman)
    if sc.get("unopened"):
        r = run.call(pool.is_alive, timeout=5)
        run.check(r.ok and r.value is False and not run.net.attempts, "unopened", "probing a pool never opened %s, %d connections attempted" % (r, len(run.net.attempts)))
        return
    if not run.must(run.call(pool.open), "open", "opening with no fault"):
        return
    sh = h.all_shells[0]
    optime, readtime = wsman.operation_timeout, sc["ws"].get("read_timeout", 30)
    fired: t.List[t.Dict] = []
    pipes: t.List[t.Any] = []
    dead = False  # a probe said the pool is gone
    for i, op in enumerate(sc["ops"]):
        o = op[0]
        run.settle(1.0)
        if o == "alive":
            del fired[:]
            h.on_fire = fired.append
            armed = h.arm(op[2]) if op[2] else None
            conns = [x for x in run.net.conns if not x.client_closed]
            usable = [x for x in conns if not (x.eof or x.reset or x.dead or x.server_closed)]
            n0, a0, e0, h0 = len(h.requests), len(run.net.attempts), len(h.effects), len(h.http)
            before = pool.state
            s0 = (sh.state, sh.deleted, h.cfg.get("get_state"), h.cfg.get("get_delay") or 0)
            r = run.call(pool.is_alive, timeout=op[1]) if op[1] is not None else run.call(pool.is_alive)
            if armed:
                armed["used"] = True
            what = "probe %d (timeout %s, shell %s, fault %r)" % (i, op[1], s0, fired)
            http = len(h.http) - h0
            if not run.check(len(run.net.attempts) == a0, "connect", "%s made %d new connection attempts" % (what, len(run.net.attempts) - a0)):
                return
            reqs = h.requests[n0:]
            if not run.check(len(reqs) <= 1 and http <= 1, "requests", "%s sent %d requests (%s)" % (what, http, [x["action"] for x in reqs])):
                return
            if not run.check(len(h.effects) == e0, "side_effect", "%s changed something on the server: %r" % (what, h.effects[e0:])):
                return
            limit = (op[1] + 2 if op[1] is not None else readtime) + 2.0
            if any(f["kind"] == "trunc_resp" for f in fired):
                limit *= 2  # every part of an answer that stops midway may take that long
            if not run.check(r.dur <= limit, "slow", "%s took %.1f s" % (what, r.dur)):
                return
            tmo = op[1] if op[1] is not None else optime
            if reqs and not run.check(reqs[0]["action"] == "Get" and reqs[0]["shell"] == sh.id and reqs[0]["optimeout"] == tmo, "request", "%s asked the server for %s of shell %s within %s s" % (what, reqs[0]["action"], reqs[0]["shell"], reqs[0]["optimeout"])):
                return
            want = expect(fired, reqs, s0, op[1] + 2 if op[1] is not None else readtime, tmo, usable, run)
            run.cover["probe:%s" % want] += 1
            if r.ok and type(r.value) is not bool and not run.check(False, "value", "%s %s" % (what, r)):
                return
            if want == "any":  # too close to the limit to say which, or garbage: never a wrong yes
                if not run.check(not (r.ok and r.value and any(f["kind"] in ANSWERS for f in fired)), "untrue", "%s %s" % (what, r)):
                    return
            elif want == "raise":
                if not run.check(not r.ok, "raise", "%s %s" % (what, r)):
                    return
            elif not run.check(r.ok and r.value is want, "untrue" if r.ok and r.value else "answer", "%s %s, expected %s" % (what, r, want)):
                return
            if r.ok and not r.value:
                dead = True
                break
            if not run.check(pool.state == before, "state", "%s %s and moved the pool from %s to %s" % (what, r, before, pool.state)):
                return
            if not r.ok and any(f["kind"] in BREAKS or f["kind"] in ("delay_resp", "slow_req") for f in fired):
                break
        elif o == "run":
            if pool.state != 2 or sh.deleted or sh.state != "Connected":
                continue
            ps = PowerShell(pool)
            ps.add_script("x%d" % i)
            r = run.call(ps.invoke)
            if not r.ok:
                # only a connection lost meanwhile can have done this
                if not run.check(any(x in lost for x in ("dead", "rst", "fin")) if (lost := [o2[1] for o2 in sc["ops"][:i] if o2[0] == "lost"]) else False, "after", "running a pipeline after %d probes %s" % (i, r)):
                    return
                return
            if not c.check_pipe(run, c.pipe_of(h, ps), ps, "pipe"):
                return
        elif o == "begin":
            if pool.state != 2 or sh.deleted or sh.state != "Connected" or any(x[0] == "lost" for x in sc["ops"][:i]):
                continue
            ps = PowerShell(pool)
            ps.add_script("b%d" % i)
            if not run.must(run.call(ps.begin_invoke), "after", "starting a pipeline"):
                return
            pipes.append(ps)
        elif o == "lost":
            for x in run.net.conns:
                if not x.client_closed:
                    x.server_close() if op[1] == "fin" else x.server_reset() if op[1] == "rst" else x.blackhole()
                    run.sim.fired["lost_" + op[1]] += 1
        elif o == "gone":
            if sh.id in h.shells:
                sh.deleted = True
                del h.shells[sh.id]
                run.sim.fired["shell_gone"] += 1
        elif o == "idle":
            sh.state = "Disconnected"
            run.sim.fired["shell_idle"] += 1
        elif o == "disconnect":
            if pool.state == 2 and not sh.deleted and sh.state == "Connected" and not any(x[0] == "lost" for x in sc["ops"][:i]):
                if not run.must(run.call(pool.disconnect), "after", "disconnecting"):
                    return
        elif o == "stall":
            h.cfg["get_delay"] = op[1]
        else:
            run.settle(op[1])
    h.on_fire = None
    n0 = len(h.requests)
    if dead:
        r = run.call(pool.close)
        if not run.check(r.ok and len(h.requests) == n0, "close", "closing after the probe said no %s and made %d requests" % (r, len(h.requests) - n0)):
            return
        if not run.check(pool.state == 3, "state", "after the probe said no the pool is in state %s" % pool.state):
            return
    # the ban on new connections is over: another pool works over the same WSMan object
    h.cfg["get_delay"] = 0
    for x in run.net.conns:
        if not x.client_closed and x.dead:
            wsman.transport.session.close()
            break
    p2 = RunspacePool(wsman)
    r = run.call(p2.open)
    lost = dead or any(x[0] == "lost" for x in sc["ops"]) or any(f["kind"] in BREAKS or f["kind"] in ("delay_resp", "slow_req") for f in fired)
    if not r.ok and lost and len(run.net.attempts) > 0:
        # the call on a connection that has been lost meanwhile may fail; the next one makes a new connection
        p2 = RunspacePool(wsman)
        r = run.call(p2.open)
    if not run.must(r, "after", "opening another pool on the same client after the probes (dead %s)" % dead):
        return
    ps = PowerShell(p2)
    ps.add_script("again")
    if not run.must(run.call(ps.invoke), "after", "running a pipeline in the other pool"):
        return
    if not c.check_pipe(run, c.pipe_of(h, ps), ps, "pipe"):
        return
    if not dead and pool.state == 2 and sh.id in h.shells and sh.state == "Connected" and not lost:
        for ps in pipes:
            if not run.must(run.call(ps.end_invoke), "after", "waiting for a pipeline begun before the probes"):
                return
            if not c.check_pipe(run, c.pipe_of(h, ps), ps, "pipe"):
                return
        if not run.must(run.call(pool.close), "close", "closing the probed pool") or not run.check(sh.deleted, "close", "closing did not delete the shell"):
            return
    run.must(run.call(p2.close), "close", "closing the other pool")
    run.problems("refused", ("psrp", "dup", "soap", "proxy"))


def expect(fired: t.List, reqs: t.List, s0: t.Tuple, wait: float, optime: float, usable: t.List, run: fw.Run) -> t.Any:
    """What the server and the network make of the probe: True, False, "raise", or "any" where more than one is right."""
    if not usable:
        return False  # no connection to ask over, or nobody listens on it any more
    state, deleted, _, delay = s0
    lag = run.net.lat[1] * 6 + 0.5 + (run.hosts[0].cfg.get("think") or 0)
    kind = fired[0]["kind"] if fired else None
    f = fired[0] if fired else {}
    if kind in ("drop_req", "rst_before", "fin_before"):
        return False
    if kind in ("fault",):
        return False if f["args"]["code"] in (OPTIMEOUT, SELECTORS) else "raise"
    if kind == "http_err":
        return "raise"
    if kind == "garbage_200":
        return "raise"
    extra = f.get("secs", 0) if kind in ("delay_resp", "slow_req") else 0
    if deleted:
        t_answer, ans = 0.0, False
    elif delay and delay > optime:
        t_answer, ans = optime, False
    else:
        t_answer, ans = delay, state != "Disconnected"
    t_answer += extra
    if kind in ("drop_resp", "rst_after", "fin_after", "trunc_resp"):
        return False if t_answer + lag < wait else "any" if kind != "drop_resp" else False
    if t_answer > wait:
        return False
    if t_answer + lag > wait:
        return "any" if ans or kind == "bad_relates" else False
    if kind == "bad_relates" and not deleted and not (delay and delay > optime):
        return "raise"
    return ans
