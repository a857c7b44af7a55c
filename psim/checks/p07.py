"""P07: a response is accepted only for the request it answers."""
from __future__ import annotations

import random
import re
import typing as t

from .. import fw
from . import common as c
from . import session as s

RUNS = {"quick": 3200, "thorough": 200000}

HOWS = ("other", "none", "empty", "stale", "prefix", "lower", "nouuid", "prev")
MSGID = re.compile(r"^uuid:[0-9A-Fa-f]{8}(-[0-9A-Fa-f]{4}){3}-[0-9A-Fa-f]{12}$")
# the client-visible state an operation's confirmed answer would lead to
REACHES = {"open": ("pool", 2), "disconnect": ("pool", 9), "connect": ("pool", 2), "begin": ("pipe", 1), "invoke": ("pipe", 1), "stop": ("pipe", 3)}


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    srv["by_name"] = True
    srv["max_kb"] = rng.choice([100, 150, 500, 1000])
    kind = rng.choice(["proc", "pool", "pool"])
    ops, plans = s.gen_ops(rng, kind, rng.choice([4, 8, 14]))
    srv["procs" if kind == "proc" else "plans"] = plans
    if kind == "pool":
        srv["pool"]["open"] = dict(srv["pool"].get("open", {}), private=[])
    ws = fw.gen_ws(rng)
    fl: t.List = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(ops))
        on = rng.choice(s.CLASSES[ops[i][0]])
        n = rng.choice([1, 1, 2, 3]) if on == "Receive" or ops[i][0] in ("begin", "invoke") else 1
        f: t.Dict[str, t.Any] = {"on": on, "n": n, "kind": "bad_relates", "how": rng.choice(HOWS)}
        r = rng.random()
        if r < 0.12:
            f = {"on": on, "n": n, "kind": "dup_resp", "secs": rng.choice([0.0, 0.01, 0.3, 3.0])}
        elif r < 0.3 and on == "Receive":  # the repeat of a lost poll is answered wrongly
            fl.append([i, {"on": on, "n": n, "kind": rng.choice(["drop_resp", "drop_req"])}])
            f["n"] = n + 1
        fl.append([i, f])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "kind": kind, "ops": ops, "op_faults": fl}


def has_key(pool: t.Any) -> bool:
    """Does the client hold a session key? (Without one a secure string is refused.)"""
    from pypsrp.complex_objects import ObjectMeta

    try:
        pool.serialize("x", ObjectMeta("SS"))
        return True
    except Exception:
        return False


def snapshot(ses: s.Session) -> t.Dict[str, t.Any]:
    out: t.Dict[str, t.Any] = {"payload": (ses.w.max_envelope_size, ses.w.max_payload_size)}
    if ses.pool is not None:
        p = ses.pool
        out["pool"] = (p.min_runspaces, p.max_runspaces, p.protocol_version, p.ps_version, p.serialization_version, len(p.user_events), repr(p.application_private_data), has_key(p))
        out["poolstate"] = p.state
    for k, ps in ses.pipes.items():
        if ses.kind == "pool":
            out["out%d" % k] = (len(ps.output), tuple(len(getattr(ps.streams, x)) for x in c.KINDS), ps.had_errors)
        else:
            out["out%d" % k] = (ps.stdout, ps.stderr, ps.rc)
        out["state%d" % k] = ps.state
    if ses.shell is not None:
        out["poolstate"] = ses.shell.opened
    return out


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    ses = s.Session(run, h, sc.get("kind", "pool"))
    snaps: t.List[t.Tuple[t.Dict, t.Dict]] = []
    h.on_fire = lambda f: snaps.append((f, snapshot(ses))) if f["kind"] == "bad_relates" else None
    doomed: t.Set[int] = set()
    pool_doomed = False
    for i, op in enumerate(sc["ops"]):
        if len(op) > 1 and op[0] not in ("set_min", "set_max", "alive") and op[1] in doomed:
            continue
        run.settle(1.0)  # requests of an operation that failed early arrive before the next fault is armed
        armed = [h.arm(f) for j, f in sc.get("op_faults", []) if j == i]
        del snaps[:]
        if pool_doomed and op[0] in s.POOL_WAIT:
            break
        r = ses.do(op)
        if r is None:
            continue
        for f in armed:
            f["used"] = True
        if not r.ok and len(op) > 1 and op[0] not in ("set_min", "set_max", "alive"):
            doomed.add(op[1])
        if not r.ok and op[0] in s.POOL_WAIT and run.sim.fired:
            pool_doomed = True
        if snaps:
            f, before = snaps[-1]
            run.cover["mismatched:" + f["on"]] += 1
            what = "%s whose %s response was mismatched (%s)" % (op[0], f["on"], f.get("how"))
            if not run.check(not r.ok, "accepted", "%s %s" % (what, r)):
                return
            if not run.check(len(snaps) == 1, "again", "%s went on after it" % what):
                return
            after = snapshot(ses)
            for k in before:
                if k.startswith("state") or k == "poolstate":
                    if f["on"] == "Receive" and not run.check(before[k] == after[k], "state", "%s changed %s from %r to %r" % (what, k, before[k], after[k])):
                        return
                elif not run.check(before[k] == after.get(k), "content", "%s changed %s from %.300r to %.300r" % (what, k, before[k], after.get(k))):
                    return
            reach = REACHES.get(op[0])
            if reach and f["on"] != "Receive" and f["on"] != "Send" and ses.kind == "pool":
                now = ses.pool.state if reach[0] == "pool" else ses.pipes[op[1]].state
                if not run.check(now != reach[1], "state", "%s left the state at %d" % (what, now)):
                    return
            if op[0] == "adopt" and not run.check(getattr(ses, "adopted", None) is None or f["on"] == "Receive" or ses.adopted.state != 2, "state", "%s left the pool opened" % what):
                return
            if op[0] == "open" and ses.shell is not None and not run.check(not ses.shell.opened, "state", "%s left the shell marked open" % what):
                return
        elif not r.ok and not run.sim.fired and not type(r.exc).__name__.endswith("StateError") and op[0] != "reset":
            run.bad("raised", "%s %s although every response matched" % (op[0], r))
            return
        if not judge(run, h, ses, doomed):
            return
        if op[0] in ("open", "disconnect", "connect", "adopt") and not r.ok:
            break
    ids: t.Dict[str, bytes] = {}
    for x in h.requests:
        if not run.check(MSGID.match(x["msgid"]), "msgid", "%s request has MessageID %r" % (x["action"], x["msgid"])):
            return
        low = x["msgid"].lower()
        if low in ids and not run.check(x["action"] == "Receive" and ids[low] == x["soap"], "msgid", "MessageID %s used for two requests" % x["msgid"]):
            return
        ids[low] = x["soap"]
    run.problems("model", ("msgid", "soap", "dup"))


def judge(run: fw.Run, h: t.Any, ses: s.Session, doomed: t.Set[int]) -> bool:
    """What the caller holds is never more than, nor other than, what was sent for it."""
    for k, ps in ses.pipes.items():
        if ses.kind == "proc":
            proc = next((p for sh in h.all_shells for p in sh.all_commands if p.id == str(ps.id).upper() or p.cmd == "exe%d" % k), None)
            if proc is None:
                continue
            for name in ("stdout", "stderr"):
                got, full = getattr(ps, name), getattr(proc, name)
                if not run.check(full.startswith(got), "foreign", "%s holds %.200r, the process wrote %.200r" % (name, got, full)):
                    return False
            continue
        pipe = c.pipe_of(h, ps)
        if pipe is None:
            if not run.check(not ps.output, "foreign", "output %.200r of a pipeline the server does not have" % ps.output):
                return False
            continue
        outs = [p for kk, p in pipe.sent if kk == "output"]
        d = c.compare_output(outs[: len(ps.output)], ps.output, "output")
        if d:
            run.bad("foreign", "pipeline %d: %s" % (k, d))
            return False
        for kind in c.KINDS:
            if kind == "error":
                continue
            sent = [p for kk, p in pipe.sent if kk == kind]
            got = getattr(ps.streams, kind)
            if not run.check(len(got) <= len(sent), "foreign", "%s stream holds %d records, %d were sent" % (kind, len(got), len(sent))):
                return False
            for e, g in zip(sent, got):
                d = c.record_diff(kind, e, g)
                if d:
                    run.bad("foreign", "pipeline %d %s stream: %s" % (k, kind, d))
                    return False
    return True
