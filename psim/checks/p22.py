"""P22: connection failures are retried as configured and the request runs once."""
from __future__ import annotations

import random
import typing as t

from .. import fw
from . import common as c
from . import p19
from . import session as s

RUNS = {"quick": 2000, "thorough": 150000}
POLL_TRIES = 5  # a Receive or its authentication is repeated this often after a timeout


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng, auth=False)
    srv["by_name"] = True
    srv.pop("idle_close", None)
    auth = rng.choice(["none", "none", "basic", "ntlm", "ntlm", "credssp", "certificate"])
    srv["auth"] = auth
    srv["conn_close"] = auth in ("none", "basic", "certificate")
    if auth == "basic":
        srv["cred"] = ["user", "pass"]
    if rng.random() < 0.25 or auth == "certificate":
        srv.update(ssl=True, port=5986)
    if auth == "certificate":
        srv["key_password"] = rng.choice([None, "k\u00e9y", "secret"])
    if auth in ("ntlm", "credssp"):
        srv["encrypt"] = auth == "credssp" or rng.random() < 0.6
        if not srv["encrypt"]:
            srv["client_enc"] = "never"
    if rng.random() < 0.25:
        srv["proxy"] = True
    kind = rng.choice(["proc", "pool", "pool"])
    ops, plans = s.gen_ops(rng, kind, rng.choice([2, 4, 7]), rng.choice([0, 0, 20000]))
    ops = [op for op in ops if op[0] != "alive"]  # may not connect at all: P17
    srv["procs" if kind == "proc" else "plans"] = plans
    n = rng.choice([0, 0, 1, 2, 3, 5, 8])
    ws = fw.gen_ws(rng)
    ws.update(reconnection_retries=n, reconnection_backoff=rng.choice([0, 0.1, 0.5, 2.0, 2.0, 7.5]), connection_timeout=rng.choice([3, 10, 30]))
    # how often connecting fails before each of the requests, and how
    fails: t.List = []
    dense = rng.choice([0.1, 0.3, 0.6])
    for _ in range(120):
        if rng.random() > dense:
            fails.append([])
            continue
        k = rng.choice([1, n, n, max(n - 1, 0), rng.randint(0, n)] + ([n + 1, n + 1 + rng.randint(0, 12)] if rng.random() < 0.4 else []))
        style = rng.choice(["refuse", "timeout", "mixed"])
        fails.append([rng.choice(["refuse", "timeout"]) if style == "mixed" else style for _ in range(k)])
    sc = {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "kind": kind, "ops": ops, "fails": fails, "slow": rng.choice([0, 0, 0, 0.6])}
    if rng.random() < 0.25:
        i = rng.randrange(len(ops))
        on = rng.choice([x for x in s.CLASSES[ops[i][0]] if x != "Receive"] or ["Create"])
        sc["sent_fault"] = [i, {"kind": rng.choice(["rst_before", "rst_after", "fin_before", "fin_after"]), "on": on, "n": 1}]
    return sc


class Plan:
    """Hands out the verdict for each connection attempt: the failures planned for this request, then success."""

    def __init__(self, fails: t.List, slow: float, limit: float) -> None:
        self.fails = list(fails)
        self.cur: t.List = []
        self.fresh = True
        self.slow = slow
        self.limit = limit

    def __len__(self) -> int:
        return 1 << 60

    def __getitem__(self, n: int) -> t.Optional[t.List]:
        if self.fresh:
            self.cur = list(self.fails.pop(0)) if self.fails else []
            self.fresh = False
        if self.cur:
            return [self.cur.pop(0)]
        self.fresh = True
        return ["delay", self.slow * self.limit] if self.slow else ["ok"]


def run(run: fw.Run, sc: t.Dict) -> None:
    import requests

    cfg = dict(sc["srv"])
    args: t.Dict = {}
    if cfg.get("auth") == "certificate":
        args = p19.pems(run)
        cfg["client_cert"] = args["certificate_pem"]
        args.update(auth="certificate", certificate_key_password=cfg.get("key_password"))
    h = run.host(cfg)
    ws = sc.get("ws", {})
    n = ws.get("reconnection_retries", 0)
    back = ws.get("reconnection_backoff", 2.0)
    limit = ws.get("connection_timeout", 30)
    net_: t.Any = run.sim.net  # type: ignore[attr-defined]
    plan = Plan(sc.get("fails", []), sc.get("slow", 0), min(limit, 3))
    h.connect_plan = plan  # type: ignore[assignment]
    ses = s.Session(run, h, sc.get("kind", "pool"), args=args)
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    negotiated = cfg.get("auth") in ("ntlm", "credssp")
    stop = False
    ops = list(sc["ops"])
    i = -1
    redo = 0
    while ops and not stop:
        op = ops.pop(0)
        i += 1
        run.settle(0.5)
        if negotiated and not cfg.get("encrypt"):  # the connection is gone, so this operation has to connect
            for conn in net_.conns:
                if not conn.client_closed:
                    conn.server_close()
            run.settle(0.5)
        sent = sc.get("sent_fault")
        armed = h.arm(sent[1]) if sent and sent[0] == i else None
        del fired[:]
        a0, r0, h0 = len(net_.attempts), len(h.requests), len(h.http)
        plan.fresh, plan.cur = True, []
        t0 = run.sim.now
        r = ses.do(op)
        if armed is not None:
            armed["used"] = True
        if r is None:
            continue
        what = "%s with %d retries" % (op[0], n)
        reqs = h.requests[r0:]
        used = {x["conn"] for x in h.http[h0:]}
        action = {x["conn"]: x["action"] for x in reversed(reqs)}
        # the attempts in groups: failures and what followed
        groups: t.List[t.Tuple[t.List[int], t.Optional[int]]] = []
        cur: t.List[int] = []
        for a in range(a0, len(net_.attempts)):
            if a in used:
                groups.append((cur, a))
                cur = []
            else:
                cur.append(a)
        if cur:
            groups.append((cur, None))
        wait = op[2] + 2 if op[0] == "poll" and len(op) > 2 and op[2] else None
        exhausted = False
        for bad, ok in groups:
            if not bad:
                continue
            if ok is not None:
                polls = {action.get(ok, "") == "Receive" or not action.get(ok)}
                if not action.get(ok):
                    polls = {True, False}
            else:
                seen = [x["action"] for x in reqs]
                first = s.CLASSES[op[0]][0]
                if not seen:
                    polls = {first == "Receive"}
                elif op[0] in ("begin", "send", "signal"):
                    polls = {False}
                elif op[0] in ("end", "poll"):
                    polls = {True}
                else:
                    polls = {True, False}
            lim = wait if wait and True in polls else limit
            if cfg.get("proxy"):
                polls |= {False}  # a proxy that cannot be reached is not a timeout
            why = ""
            for is_poll in polls:
                why = explain(net_, bad, ok, is_poll, n, back, lim, negotiated)
                if not why:
                    break
            if not run.check(not why, "retries", "%s (%s): %s; attempts %s" % (what, action.get(ok, "?") if ok is not None else "raised", why, [(round(net_.attempts[a][0] - t0, 2), net_.attempts[a][3]) for a in bad])):
                return
            run.cover["failures:%d/%d" % (min(len(bad), 9), n)] += 1
            exhausted = exhausted or ok is None
        # a message that reached the server reached it once
        ids = [x["msgid"] for x in reqs if x["action"] != "Receive"]
        if not run.check(len(ids) == len(set(ids)), "twice", "%s: the server got the same request twice: %r" % (what, [x["action"] for x in reqs])):
            return
        if fired:  # the request was on its way when the connection broke
            run.check(not r.ok, "sent", "%s %s though its %s met %s" % (what, r, fired[0]["on"], fired[0]["kind"]))
            stop = True
            continue
        if exhausted:
            if not run.check(not r.ok and isinstance(r.exc, requests.exceptions.RequestException), "raised", "%s %s after all its attempts failed" % (what, r)):
                return
            run.cover["exhausted:" + op[0]] += 1
            if op[0] in ("poll", "end") and redo < 30:
                redo += 1
                ops.insert(0, op)  # nothing was asked, so nothing is lost: ask again
                i -= 1
                continue
            stop = True
            continue
        if op[0] == "keys" and any(b for b, _ in groups) and type(r.exc).__name__ == "InvalidPSRPOperation":
            stop = True  # the time for the exchange ran out
            continue
        if not r.ok and type(r.exc).__name__.endswith("StateError") or op[0] == "reset" and cfg.get("proto"):
            continue
        if not run.must(r, "failed", "%s (failures %s)" % (what, [len(b) for b, _ in groups])):
            return
    plan.fails, plan.cur, plan.fresh = [], [], True
    for k, ps in ses.pipes.items():
        if ses.kind == "pool":
            pipe = c.pipe_of(h, ps)
            if pipe is not None and ps.state in (4, 5) and not c.check_pipe(run, pipe, ps, "pipe"):
                return
        else:
            proc = next((p for sh in h.all_shells for p in sh.all_commands if p.cmd == "exe%d" % k), None)
            if proc is not None and ps.state.endswith("Done") and not run.check((proc.stdout, proc.stderr) == (ps.stdout, ps.stderr), "process", "process %d gave %.100r %.100r" % (k, ps.stdout, ps.stderr)):
                return
    run.problems("model", ("dup", "http", "clear", "crypt", "soap", "psrp", "proxy"))


def explain(net_: t.Any, bad: t.List[int], ok: t.Optional[int], is_poll: bool, n: int, back: float, limit: float, negotiated: bool) -> str:
    """Why these failed attempts, followed by a good one or by none, are not what was configured ('' if they are)."""
    tries = 0
    j = 0  # failures of the current round
    seq = bad + ([ok] if ok is not None else [])
    for x, a in enumerate(bad):
        start, _, _, kind = net_.attempts[a]
        j += 1
        end = net_.ends.get(a)
        if end is None:
            return "attempt %d neither failed nor carried a request" % (x + 1)
        if kind == "timeout" and abs(end - start - limit) > 0.01:
            return "attempt %d waited %.2f s to connect, not %g" % (x + 1, end - start, limit)
        last = x == len(bad) - 1
        if j <= n:
            if last and ok is None:
                return "gave up after %d of %d attempts" % (j, n + 1)
            gap = net_.attempts[seq[x + 1]][0] - end
            want = [0.0, back] if j == 1 else [min(120.0, back * 2 ** (j - 1))]
            if min(abs(gap - w) for w in want) > 0.05:
                return "waited %.2f s after failure %d, expected %r" % (gap, j, want)
            continue
        if last and ok is None:
            if is_poll and kind == "timeout" and tries < POLL_TRIES:
                return "a poll gave up after %d timeouts" % (tries + 1)
            return ""
        if not (is_poll and kind == "timeout"):
            return "went on after %d failures" % j
        if tries >= POLL_TRIES:
            return "polled on after %d timeouts" % (tries + 1)
        tries += 1
        gap = net_.attempts[seq[x + 1]][0] - end
        want = [back * (2**tries - 1), back * 2**tries]
        if min(abs(gap - w) for w in want) > 0.05:
            return "waited %.2f s before poll %d, expected %r" % (gap, tries + 1, want)
        j = 0
    return ""
