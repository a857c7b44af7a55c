"""P21: no call hangs for ever when the server or the network goes silent."""
from __future__ import annotations

import os
import random
import typing as t

from .. import fw
from . import files
from . import session as s

RUNS = {"quick": 1800, "thorough": 100000}
HOW = ("gone", "gone", "mute", "mute", "refuse", "trunc", "unanswered")
ONE = ("begin", "send", "signal", "close_ps", "disconnect", "connect", "alive", "config", "pools", "close")  # nothing left to poll for once a request failed
LEGS = 16  # one-way trips an attempt may still see answered: connecting, proxy, authentication round trips


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    srv["by_name"] = True
    ws = fw.gen_ws(rng)
    if rng.random() < 0.4:
        ws["connection_timeout"] = rng.choice([1, 5, 31, 60])
    if rng.random() < 0.3:
        ws["reconnection_backoff"] = rng.choice([0.1, 1.0, 5.0])
    if rng.random() < 0.3:
        ws["operation_timeout"] = rng.choice([1, 20, 60])
        ws["read_timeout"] = ws["operation_timeout"] + rng.choice([2, 10, 30])
    kind = rng.choice(["pool", "pool", "pool", "proc", "client"])
    if kind == "client":
        ops: t.List = [["cmd"], ["ps"], ["copy", rng.choice([0, 10, 40000, 300000])], ["fetch", rng.choice([10, 40000, 700000])]]
        rng.shuffle(ops)
        ops = ops[: rng.choice([1, 1, 2])]
        plans: t.List = [[["sleep", rng.choice([0.1, 30.0])], ["out", ["S", "x"]], ["end", "Completed"]]]
        srv["procs"] = [[["out", "stdout", "6f75"], ["sleep", rng.choice([0.1, 30.0])], ["end", 0]]]
        srv["plans"] = plans
        srv.pop("by_name")
        srv["pool"]["frag"] = rng.choice([32768, 4096])
        srv.pop("resp_bytes", None)
    else:
        ops, plans = s.gen_ops(rng, kind, rng.choice([2, 4, 8]))
        srv["procs" if kind == "proc" else "plans"] = plans
    sc: t.Dict[str, t.Any] = {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "kind": kind, "ops": ops, "file": rng.getrandbits(30)}
    op = 0 if rng.random() < 0.2 else rng.randrange(len(ops))
    sil: t.Dict[str, t.Any] = {"how": rng.choice(HOW), "op": op}
    if rng.random() < 0.5:
        sil["req"] = rng.choice([1, 1, 1, 2, 3, 4, 6])  # as the n-th HTTP request of that operation arrives
        sil["lag"] = rng.choice([0.0, 0.0, 0.001, 0.05, 1.0])
    else:
        sil["after"] = rng.choice([0.0, 0.001, 0.02, 0.3, 3.0, 21.0, rng.uniform(0, 60)])
    if rng.random() < 0.25:
        sil["heal"] = rng.choice([20.0, 200.0])
    sc["silence"] = sil
    sc["after"] = rng.randint(0, 3)  # further operations tried while nobody answers
    return sc


class Silence:
    """The moment from which nobody answers."""

    def __init__(self, run: fw.Run, h: t.Any, spec: t.Dict) -> None:
        self.run, self.h, self.spec = run, h, spec
        self.since: t.Optional[float] = None  # what was being answered by then still is
        self.fell = False
        self.healed = False
        self.fault: t.Any = None

    def fall(self) -> None:
        if self.fell:
            return
        self.fell = True
        run, h, how = self.run, self.h, self.spec["how"]
        run.sim.log("silence", how)
        run.cover["silence:" + how] += 1
        if how == "unanswered":
            # connections and authentication work, no request is answered
            self.fault = h.arm({"on": "*", "n": 1, "times": 10**9, "kind": "drop_req"})
            h.on_fire = lambda f: self.now() if f["kind"] == "drop_req" else None
        elif how == "trunc":
            self.fault = h.arm({"on": "*", "n": 1, "times": 1, "kind": "trunc_resp", "how": "dead", "frac": 0.5})
            h.on_fire = lambda f: f["kind"] == "trunc_resp" and run.sim.after(0.0, self.cut_off)
        else:
            self.cut_off()
        run.sim.fired["silence:" + how] += 1

    def now(self) -> None:
        if self.since is None:
            self.since = self.run.sim.now

    def cut_off(self) -> None:
        run, h, how = self.run, self.h, self.spec["how"]
        if self.healed:
            return
        self.now()
        h.cfg["silent_from"] = run.sim.now
        h.cfg["silent_accept"] = how == "mute"
        h.cfg["silent_connect"] = "refuse" if how == "refuse" else "timeout"
        if how != "trunc":
            for c in run.sim.net.conns:
                if c.ep is h and not c.client_closed:
                    c.blackhole()

    def heal(self) -> None:
        self.now()
        self.healed = True
        self.h.cfg["silent_from"] = None
        if self.fault:
            self.fault["used"] = True
        self.h.faults = []


class Bounds:
    """Seconds a call may take once nobody answers, from the settings alone."""

    def __init__(self, ws: t.Dict, net: t.Dict) -> None:
        self.trip = LEGS * max(net.get("lat") or [0.01])
        self.n = ws.get("reconnection_retries", 0)
        self.b = ws.get("reconnection_backoff", 2.0)
        self.c = ws.get("connection_timeout", 30)
        self.r = ws.get("read_timeout", 30)

    def one(self, timeout: t.Optional[float]) -> float:
        """One request: the connection attempts with the pauses between them, then the wait for the answer."""
        c, r = (self.c, self.r) if timeout is None else (timeout + 2, timeout + 2)
        return (self.n + 1) * (c + self.trip) + sum(min(120.0, self.b * 2**i) for i in range(self.n)) + r

    def polled(self, timeout: t.Optional[float]) -> float:
        """A poll and its five repeats with the pauses between them."""
        return 6 * self.one(timeout) + self.b * sum(2**i for i in range(1, 6))

    def of(self, op: t.List) -> float:
        to = op[-1] if op[0] in ("poll", "alive") and len(op) > 1 else None
        if op[0] == "alive" or op[0] in ONE:
            return self.one(to if op[0] == "alive" else None)
        if op[0] in ("cmd", "ps", "copy", "fetch"):
            return self.polled(None) + 2 * self.one(None)
        return self.polled(to if op[0] == "poll" else None) + (60.0 if op[0] == "keys" else 0.0)


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    sil = Silence(run, h, sc["silence"])
    bounds = Bounds(sc.get("ws", {}), sc.get("net", {}))
    kind = sc.get("kind", "pool")
    if kind == "client":
        do = client_ops(run, h, sc)
        w = None
    else:
        ses = s.Session(run, h, kind)
        do = ses.do
        w = ses.w
    left = sc.get("after", 0)
    ops = list(sc["ops"])
    at = sc["silence"]["op"] % len(ops)
    seen = [0]

    def counted(rec: t.Dict) -> None:
        seen[0] += 1
        if seen[0] == sc["silence"].get("req"):
            if sc["silence"].get("lag"):
                run.sim.after(sc["silence"]["lag"], sil.fall)
            else:
                sil.fall()

    for i, op in enumerate(ops):
        if i == at:
            if "req" in sc["silence"]:
                h.on_request = counted
            else:
                run.sim.after(sc["silence"].get("after", 0.0), sil.fall)
        if sil.since is not None:
            if left <= 0:
                break
            left -= 1
        n0 = len(h.requests)
        r = do(op)
        if r is None:
            continue
        if op[0] in ("poll", "alive") and len(op) > 1 and op[-1] is not None:
            for x in h.requests[n0:]:
                if x["action"] in ("Receive", "Get") and not run.check(x["optimeout"] == op[-1], "told", "%s with a limit of %s told the server to answer within %s" % (op[0], op[-1], x["optimeout"])):
                    return
        if sil.since is None:
            continue
        took = r.t1 - max(r.t0, sil.since)
        limit = bounds.of(op)
        run.cover["silent:" + op[0]] += 1
        run.cover["silent_raised" if not r.ok else "silent_returned"] += 1
        if not run.check(took <= limit + 3.0, "slow", "%s took %.1f s after everything had gone silent (%s), its settings allow %.1f" % (op[0], took, sc["silence"]["how"], limit)):
            return
    run.sim.log("took", round(run.sim.now, 3))
    heal = sc["silence"].get("heal")
    if heal is None or sil.since is None or w is None:
        return
    # -- progress once it answers again
    run.settle(heal)
    sil.heal()
    r = fw.Res()
    for _ in range(2):
        ses = s.Session(run, h, kind, wsman=w)
        h.cfg["plans" if kind == "pool" else "procs"] = []
        r = ses.do(["open"])
        if r.ok:
            break
    if not run.must(r, "dead", "opening a new %s with the same client, the server answering again," % kind):
        return
    run.cover["healed"] += 1
    run.must(ses.do(["invoke", 1] if kind == "proc" else ["invoke", 1, []]), "dead", "running something after that")


def client_ops(run: fw.Run, h: t.Any, sc: t.Dict) -> t.Callable:
    fl = files.Files(h)
    base = fw.scratch_dir(run)
    cl = run.client()
    rng = random.Random(sc.get("file", 0))

    def do(op: t.List) -> t.Optional[fw.Res]:
        if op[0] == "cmd":
            return run.call(cl.execute_cmd, "exe 0")
        if op[0] == "ps":
            return run.call(cl.execute_ps, "run 0")
        data = rng.randbytes(op[1])
        if op[0] == "copy":
            h.plans = [[["wait_input"], ["call", "copy"]]]
            src = os.path.join(base, "src")
            with open(src, "wb") as f:
                f.write(data)
            return run.call(cl.copy, src, "C:\\x.bin")
        h.plans = [[["call", "fetch"]]]
        fl.fs["C:\\y.bin"] = data
        return run.call(cl.fetch, "C:\\y.bin", os.path.join(base, "dst"))

    return do
