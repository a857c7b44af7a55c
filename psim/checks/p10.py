"""P10: pools and shells open fully, refuse misuse, and release server resources."""
from __future__ import annotations

import random
import typing as t

from .. import fw, wire
from . import common as c

RUNS = {"quick": 3000, "thorough": 150000}

BEFORE, OPENED, CLOSED, BROKEN, NEG, DISC = 0, 2, 3, 5, 6, 9
POOL_OPS = ("open", "close", "close", "connect", "disconnect", "reset", "meta", "avail", "keys", "begin", "set_min", "set_max", "alive")
REQ = {"open": ("Create", "Receive"), "close": ("Delete",), "connect": ("Reconnect",), "disconnect": ("Disconnect",), "reset": ("Send",), "meta": ("Command",), "avail": ("Send",), "keys": ("Send",), "begin": ("Command",), "run": ("Command",)}


def gen_fault(rng: random.Random, on: str) -> t.Dict:
    kind = rng.choice(["fault", "fault", "http_err", "drop_resp", "rst_after", "rst_before", "fin_after", "bad_relates"])
    if on == "Receive":
        kind = rng.choice(["fault", "http_err", "rst_after", "fin_before", "bad_relates"])
    f: t.Dict[str, t.Any] = {"on": on, "n": 1, "kind": kind}
    if kind == "fault":
        f["args"] = {"code": rng.choice([5, 2150858843, 2150859113]), "reason": "no"}
    elif kind == "http_err":
        f.update(status=rng.choice([500, 503, 404]), body="x", ctype="text/plain")
    return f


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    srv["by_name"] = True
    srv["plans"] = [c.gen_plan(rng, 3, sleeps=(0.05, 3.0), depth=1) for _ in range(3)]
    srv["procs"] = [[["out", "stdout", "6f"], ["sleep", rng.choice([0.1, 3.0])], ["end", rng.randint(0, 9)]] for _ in range(3)]
    opn = srv["pool"].setdefault("open", {})
    r = rng.random()
    if r < 0.15:
        opn["broken"] = rng.choice(["no", "access denied"])
    elif r < 0.22:
        opn["extra"] = [["state", rng.choice(["Closed", "Broken"])]]
        opn["never"] = True
    elif r < 0.4:
        opn["extra"] = [rng.choice([c.gen_pool_msg(rng), ["warning", "w"], ["state", rng.choice(["Opening", "NegotiationSucceeded"])]]) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.25:
        srv["pool"]["avail"] = [{} for _ in range(rng.randint(0, 3))] + [{"before": [["state", "Broken", wire.error_record("gone")]]}]
    objs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["pool", "pool", "cmd"])
        ops: t.List = []
        if rng.random() < 0.6:
            ops.append(["open"])
        for _ in range(rng.choice([2, 6, 12])):
            if kind == "pool":
                ops.append([rng.choice(POOL_OPS)])
            else:
                ops.append([rng.choice(["open", "close", "run"])])
        style = rng.choice(["plain", "with", "with"])
        if style == "with":
            if kind == "pool" and rng.random() < 0.2:
                ops = [["close"] if rng.random() < 0.3 else ["open"]] + ops  # misuse before or reuse of an open one
            ops = [o for o in ops if o[0] != "open"] if rng.random() < 0.7 else ops
        fl = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(-2, len(ops))  # -2: entering the block, -1: leaving it
                o = "open" if i == -2 else "close" if i == -1 else ops[i][0]
                if REQ.get(o):
                    fl.append([i, gen_fault(rng, rng.choice(REQ[o]))])
        objs.append({"kind": kind, "style": style, "ops": ops, "faults": fl, "raise": rng.random() < 0.4, "min": rng.randint(1, 3), "max": rng.randint(3, 5), "idle": rng.choice([None, None, 100])})
    return {"net": fw.gen_net(rng), "srv": srv, "ws": fw.gen_ws(rng), "objs": objs, "shared": rng.random() < 0.5}


class Body(Exception):
    pass


class Obj:
    def __init__(self, run: fw.Run, h: t.Any, o: t.Dict, w: t.Any) -> None:
        from pypsrp.powershell import RunspacePool
        from pypsrp.shell import WinRS

        self.run, self.h, self.o = run, h, o
        self.pool = o["kind"] == "pool"
        if self.pool:
            self.x = RunspacePool(w, min_runspaces=o.get("min", 1), max_runspaces=o.get("max", 5), idle_timeout=o.get("idle"))
        else:
            self.x = WinRS(w)
        self.st = BEFORE
        self.keys: t.Optional[bool] = False
        self.sid: t.Optional[str] = None  # the shell on the server
        self.deleted = False
        self.lost = False  # a fault left it open whether the client knows of its shell
        self.k = 0
        self.fired: t.List[t.Dict] = []

    # ---- faults
    def arm(self, i: int, o: str) -> t.List[t.Dict]:
        del self.fired[:]
        self.h.on_fire = self.fired.append
        return [self.h.arm(f) for j, f in self.o.get("faults", []) if j == i and f["on"] in REQ.get(o, ())]

    def made(self, n0: int) -> None:
        new = self.h.all_shells[n0:]
        if new:
            self.sid = new[-1].id
            self.server = new[-1]

    def deletes(self) -> int:
        return len([e for e in self.h.effects if e["kind"] == "Delete" and e["shell"] == self.sid])

    def opened(self, r: fw.Res, what: str, n0: int) -> bool:
        """Judge an open() of a new object."""
        run, h = self.run, self.h
        self.made(n0)
        if not run.check(len(h.all_shells) - n0 <= 1, "open", "%s created %d shells" % (what, len(h.all_shells) - n0)):
            return False
        if r.ok:
            if self.fired and not run.check(not any(f["kind"] in ("fault", "http_err", "bad_relates") for f in self.fired), "open", "%s returned although the server refused it: %r" % (what, self.fired)):
                return False
            if not run.check(self.sid is not None, "open", "%s returned and the server has no shell" % what):
                return False
            if self.pool:
                if not run.check(self.server.pool.opened, "open", "%s returned before the server reported the pool opened" % what):
                    return False
                if not run.check(self.x.state == OPENED, "open", "%s returned in state %s" % (what, self.x.state)):
                    return False
            self.st = OPENED
            return True
        opn = h.cfg.get("pool", {}).get("open", {})
        bad = self.pool and (opn.get("broken") or opn.get("never"))
        if not run.check(self.fired or bad or self.lost, "open", "%s %s with no fault" % (what, r)):
            return False
        self.st = self.x.state if self.pool else BEFORE
        if self.pool and bad and not self.fired and not self.lost and not run.check(self.st in (BROKEN, CLOSED), "open", "%s %s and left the pool in state %s" % (what, r, self.st)):
            return False
        if self.pool and not run.check(self.st != OPENED, "open", "%s %s and left the pool opened" % (what, r)):
            return False
        self.lost = self.lost or any(f["on"] == "Create" for f in self.fired)
        if not self.pool:
            self.dead = True
        return True

    def do(self, i: int, op: t.List) -> bool:
        """One operation outside the with statement itself.  False: a violation was recorded."""
        run, h, x, o = self.run, self.h, self.x, op[0]
        run.settle(0.5)
        if not self.pool and (self.deleted or getattr(self, "dead", False)) and o in ("open", "run"):
            return True  # a process shell is used once
        if self.pool and o == "open" and self.st == CLOSED and self.sid is None:
            return True
        if not self.pool and o == "run" and self.st != OPENED:
            return True
        what = "%s of a %s in state %s" % (o, "pool" if self.pool else "shell", self.st)
        run.cover["op:%s:%s:%s" % (self.o["kind"], o, self.st)] += 1
        armed = self.arm(i, o)
        n0, s0, d0 = len(h.requests), len(h.all_shells), self.deletes()
        quiet = refuse = False
        if o == "open":
            r = run.call(x.open)
            quiet = self.st == OPENED
            refuse = not quiet and self.st != BEFORE
        elif o == "close":
            r = run.call(x.close)
            quiet = self.st in (CLOSED, BROKEN) or (self.st == BEFORE)
            if self.pool and self.st == NEG and self.sid is None:
                quiet = True
        elif o == "connect":
            r = run.call(x.connect)
            quiet = self.st == OPENED
            refuse = self.st not in (OPENED, DISC)
        elif o == "disconnect":
            r = run.call(x.disconnect)
            quiet = self.st == DISC
            refuse = self.st not in (OPENED, DISC)
        elif o == "reset":
            old = self.st == OPENED and (x.protocol_version or "") in ("2.1", "2.2")
            r = run.call(x.reset_runspace_state)
            quiet = self.st == BEFORE
            if old:
                return run.check(not r.ok and len(h.requests) == n0, "refuse", "reset against protocol %s %s" % (x.protocol_version, r))
            refuse = self.st not in (BEFORE, OPENED)
        elif o == "meta":
            r = run.call(x.get_command_metadata, "a")
            refuse = self.st != OPENED
        elif o == "avail":
            r = run.call(x.get_available_runspaces)
            refuse = self.st != OPENED
        elif o == "keys":
            r = run.call(x.exchange_keys)
            if self.keys is None and r.ok:
                self.keys = True  # the answer to an attempt that failed came later
                return run.check(x.state == self.st, "state", "%s left it in state %s" % (what, x.state))
            quiet = bool(self.keys)
            refuse = not quiet and self.st != OPENED
            self.keys = True if r.ok else None if self.st == OPENED else self.keys
        elif o == "begin":
            from pypsrp.powershell import PowerShell

            if x.protocol_version is None:
                return True  # commands are built for the server's version, known once the pool opened
            ps = PowerShell(x)
            self.k += 1
            ps.add_cmdlet("run %d" % (self.k % 3))
            r = run.call(ps.begin_invoke)
            refuse = self.st != OPENED
        elif o in ("set_min", "set_max"):
            self.k += 1
            r = run.call(setattr, x, "min_runspaces" if o == "set_min" else "max_runspaces", self.k)
            quiet = self.st != OPENED
        elif o == "alive":
            if self.st not in (OPENED, DISC):
                return True
            r = run.call(x.is_alive)
            if r.ok and r.value is False:
                self.st = CLOSED
                self.lost = True  # the server may still have it, the caller was told not to expect so
            return run.check(x.state == self.st, "state", "%s %s and left it in state %s" % (what, r, x.state))
        elif o == "run":
            from pypsrp.shell import Process

            self.k += 1
            r = run.call(Process(x, "run %d" % (self.k % 3)).invoke)
        else:
            return True
        for f in armed:
            f["used"] = True
        reqs = h.requests[n0:]
        if refuse:
            if not run.check(r.exc is not None and type(r.exc).__name__ in ("InvalidRunspacePoolStateError", "InvalidPSRPOperation"), "refuse", "%s %s" % (what, r)):
                return False
            if not run.check(not reqs, "contact", "%s was refused after %d requests to the server" % (what, len(reqs))):
                return False
            return run.check(x.state == self.st, "state", "%s was refused and changed the state to %s" % (what, x.state))
        if quiet:
            if not run.check(r.ok, "noop", "%s %s" % (what, r)) or not run.check(not reqs, "contact", "%s made %d requests to the server" % (what, len(reqs))):
                return False
            if o == "close" and self.pool:
                self.st = CLOSED if self.st != BROKEN else BROKEN
            return not self.pool or run.check(x.state == self.st, "state", "%s left it in state %s" % (what, x.state))
        if o == "open":
            return self.opened(r, what, s0)
        dels = [q for q in reqs if q["action"] == "Delete"]
        if not run.check(len(dels) == (1 if o == "close" else 0) or (o == "close" and not r.ok), "delete", "%s sent %d delete requests" % (what, len(dels))):
            return False
        if self.pool and self.sid and self.server.pool.calls and any(q["plan"].get("before") for q in self.server.pool.calls):
            if not self.fired and not self.lost and o in ("avail", "reset", "set_min", "set_max") and reqs and not run.check(x.state == BROKEN, "broken", "%s %s and left it in state %s although the server reported the pool broken" % (what, r, x.state)):
                return False
            if x.state == BROKEN:
                self.st = BROKEN
                return run.check(not r.ok, "broken", "%s %s although the server reported the pool broken" % (what, r))
        if not r.ok:
            if o == "close" and self.deletes() > d0:
                self.deleted = True
                self.lost = True  # the caller could not know
            if o in ("connect", "disconnect") and self.fired:
                self.lost = True  # the server may have done it
            if not run.check(self.fired or self.lost, "raised", "%s %s with no fault" % (what, r)):
                return False
            return not self.pool or run.check(x.state == self.st, "state", "%s %s and changed the state to %s" % (what, r, x.state))
        if o == "close":
            if not run.check(not self.fired or not any(f["kind"] in ("fault", "http_err", "bad_relates") for f in self.fired), "close", "%s returned although the server refused it" % what):
                return False
            if not run.check(self.deletes() == 1 and len(dels) == 1 and dels[0]["shell"] == self.sid, "delete", "%s returned, the shell was deleted %d times" % (what, self.deletes())):
                return False
            self.deleted = True
            self.st = CLOSED if self.pool else BEFORE
        elif o == "connect":
            self.st = OPENED
        elif o == "disconnect":
            self.st = DISC
        return not self.pool or run.check(x.state == self.st, "state", "%s left it in state %s" % (what, x.state))

    def block(self) -> bool:
        """The operations inside a with statement."""
        run, h, x = self.run, self.h, self.x
        ops = self.o["ops"]
        state = {"entered": False, "bad": False, "s0": len(h.all_shells), "n1": 0, "st": BEFORE, "d1": 0}
        armed = self.arm(-2, "open")

        def body() -> None:
            with x:
                state["entered"] = True
                for f in armed:
                    f["used"] = True
                r = fw.Res()
                r.ok = True
                if not self.opened(r, "entering a with block", state["s0"]):
                    state["bad"] = True
                    return
                for i, op in enumerate(ops):
                    if not self.do(i, op):
                        state["bad"] = True
                        return
                run.settle(0.5)
                armed.extend(self.arm(-1, "close"))
                state["n1"], state["st"], state["d1"] = len(h.requests), self.st, self.deletes()
                if self.o.get("raise"):
                    raise Body()

        r = run.call(body)
        fired = list(self.fired)
        for f in armed:
            f["used"] = True
        if state["bad"]:
            return False
        if not state["entered"]:
            if not run.check(not r.ok, "with", "the block was skipped silently"):
                return False
            if not self.opened(r, "entering a with block", state["s0"]):
                return False
            if self.sid is not None and not any(f["on"] == "Create" for f in fired):
                if not run.check(self.deletes() == 1, "leak", "entering a with block %s after its shell was created; the shell was deleted %d times" % (r, self.deletes())):
                    return False
            return True
        dels = [q for q in h.requests[state["n1"] :] if q["action"] == "Delete"]
        want = 0 if state["st"] in (CLOSED, BROKEN) or (not self.pool and state["st"] == BEFORE) else 1
        if not run.check(len(dels) == want or (fired and not r.ok and len(dels) <= want), "delete", "leaving a with block in state %s sent %d delete requests" % (state["st"], len(dels))):
            return False
        if fired or self.lost and not r.ok and not isinstance(r.exc, Body):
            if fired and any(f["kind"] in ("fault", "http_err", "bad_relates") for f in fired):
                return run.check(not r.ok and not isinstance(r.exc, Body), "close", "leaving a with block %s although the server refused to delete the shell" % r)
            return True
        if self.o.get("raise"):
            if not run.check(isinstance(r.exc, Body), "with", "an error inside the block came out as: %s" % r):
                return False
        elif not run.must(r, "with", "leaving a with block"):
            return False
        if want:
            self.deleted = True
        if self.lost:
            return True
        if not run.check(state["st"] == BROKEN or self.deletes() == 1, "leak", "after leaving a with block the shell had been deleted %d times" % self.deletes()):
            return False
        n = len(h.requests)
        r = run.call(x.close)
        return run.check(r.ok and len(h.requests) == n, "noop", "closing again after the with block %s and made %d requests" % (r, len(h.requests) - n))


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    w = None
    for o in sc["objs"]:
        if w is None or not sc.get("shared"):
            w = run.wsman()
        x = Obj(run, h, o, w)
        if o["style"] == "with":
            if not x.block():
                return
        else:
            for i, op in enumerate(o["ops"]):
                if not x.do(i, op):
                    return
    for f in h.faults:
        f["used"] = True
    dels: t.Dict[str, int] = {}
    for e in h.effects:
        if e["kind"] == "Delete":
            dels[e["shell"]] = dels.get(e["shell"], 0) + 1
    run.check(all(v == 1 for v in dels.values()), "delete", "shells deleted more than once: %r" % dels)
    run.problems("refused", ("psrp", "dup", "soap"))
