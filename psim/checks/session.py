"""A client session driven by a list of operations (data), shared by the checks that inject faults anywhere."""
from __future__ import annotations

import random
import typing as t

from .. import fw, values, wire
from . import common as c

STATE_CHANGING = ("Create", "Command", "Send", "Signal", "Delete", "Disconnect", "Reconnect", "Connect")
LOSSY = ("drop_req", "drop_resp", "rst_before", "rst_after", "fin_before", "fin_after", "trunc_resp", "http_err", "fault", "garbage_200", "bad_relates")
# operations that wait for an answer on the pool's own stream: pointless once a poll of that stream failed
POOL_WAIT = ("open", "set_min", "set_max", "avail", "reset", "keys", "adopt")
# requests each operation may send besides polls: action -> most
ALLOWED: t.Dict[str, t.Dict[str, int]] = {
    "open": {"Create": 1},
    "begin": {"Command": 1, "Send": 10**6},
    "poll": {"Send": 10**6},  # host answers
    "end": {"Send": 10**6},
    "invoke": {"Command": 1, "Send": 10**6},
    "stop": {"Signal": 1},
    "close_ps": {"Signal": 1},
    "set_min": {"Send": 1},
    "set_max": {"Send": 1},
    "avail": {"Send": 1},
    "reset": {"Send": 1},
    "keys": {"Send": 10**6},
    "disconnect": {"Disconnect": 1},
    "connect": {"Reconnect": 1},
    "alive": {"Get": 1},
    "meta": {"Command": 1, "Send": 10**6},
    "config": {"Get": 1},
    "pools": {"Enumerate": 99},
    "adopt": {"Enumerate": 99, "Connect": 1},
    "close": {"Delete": 1},
    "send": {"Send": 1},
    "signal": {"Signal": 1},
}
# the request classes a fault can hit in each operation
CLASSES = {
    "open": ["Create", "Receive"],
    "begin": ["Command", "Send"],
    "invoke": ["Command", "Send", "Receive"],
    "poll": ["Receive"],
    "end": ["Receive"],
    "stop": ["Signal"],
    "close_ps": ["Signal"],
    "set_min": ["Send", "Receive"],
    "set_max": ["Send", "Receive"],
    "avail": ["Send", "Receive"],
    "reset": ["Send", "Receive"],
    "keys": ["Send", "Receive"],
    "disconnect": ["Disconnect"],
    "connect": ["Reconnect"],
    "alive": ["Get"],
    "meta": ["Command", "Receive"],
    "config": ["Get"],
    "pools": ["Enumerate"],
    "adopt": ["Enumerate", "Connect", "Receive"],
    "close": ["Delete"],
    "send": ["Send"],
    "signal": ["Signal"],
}


class Session:
    """kind: pool or proc.  do(op) runs one operation; None means it does not apply in this state."""

    def __init__(self, run: fw.Run, h: t.Any, kind: str, **kw: t.Any) -> None:
        from pypsrp.powershell import RunspacePool
        from pypsrp.shell import WinRS

        self.run = run
        self.h = h
        self.kind = kind
        self.args = kw.pop("args", {})
        self.w = kw.pop("wsman", None) or run.wsman(h, **self.args)
        self.pipes: t.Dict[int, t.Any] = {}
        self.inputs: t.Dict[int, t.List] = {}
        self.pool: t.Any = None
        self.shell: t.Any = None
        if kind == "pool":
            self.pool = RunspacePool(self.w, **kw)
        else:
            self.shell = WinRS(self.w, **kw)

    def do(self, op: t.List) -> t.Optional[fw.Res]:
        fn = getattr(self, "op_" + op[0])
        return fn(*op[1:])

    def call(self, fn: t.Callable, *a: t.Any, **k: t.Any) -> fw.Res:
        return self.run.call(fn, *a, **k)

    # -- both
    def op_open(self) -> t.Optional[fw.Res]:
        return self.call((self.pool or self.shell).open)

    def op_close(self) -> t.Optional[fw.Res]:
        return self.call((self.pool or self.shell).close)

    # -- pool
    def op_begin(self, k: int, inputs: t.Sequence[t.Any] = (), script: str = "", invoke: bool = False) -> t.Optional[fw.Res]:
        if self.kind == "proc":
            from pypsrp.shell import Process

            if k in self.pipes:
                return None
            p = Process(self.shell, "exe%d" % k, ["a", "b"])
            self.pipes[k] = p
            return self.call(p.begin_invoke)
        from pypsrp.powershell import PowerShell

        if k not in self.pipes:
            ps = PowerShell(self.pool)
            r = self.call(ps.add_script, "run %d %s" % (k, script))
            if not r.ok:
                return r
            self.pipes[k] = ps
        ps = self.pipes[k]
        vals = [mk_input(v) for v in inputs]
        self.inputs[k] = vals
        kw: t.Dict[str, t.Any] = {"input": (v for v in vals)} if vals else {}
        return self.call(ps.invoke if invoke else ps.begin_invoke, **kw)

    def op_invoke(self, k: int, inputs: t.Sequence[t.Any] = (), script: str = "") -> t.Optional[fw.Res]:
        if self.kind == "proc":
            from pypsrp.shell import Process

            if k in self.pipes:
                return None
            p = Process(self.shell, "exe%d" % k, ["a", "b"])
            self.pipes[k] = p
            return self.call(p.invoke)
        return self.op_begin(k, inputs, script, True)

    def _pipe(self, k: int) -> t.Any:
        return self.pipes.get(k)

    def op_poll(self, k: int, timeout: t.Optional[int] = None) -> t.Optional[fw.Res]:
        p = self._pipe(k)
        if p is None or (self.kind == "pool" and p.state != 1) or (self.kind == "proc" and p.state.endswith("Done")):
            return None
        return self.call(p.poll_invoke, timeout=timeout)

    def op_end(self, k: int) -> t.Optional[fw.Res]:
        p = self._pipe(k)
        return None if p is None else self.call(p.end_invoke)

    def op_stop(self, k: int) -> t.Optional[fw.Res]:
        p = self._pipe(k)
        return None if p is None else self.call(p.stop)

    def op_close_ps(self, k: int) -> t.Optional[fw.Res]:
        p = self._pipe(k)
        return None if p is None else self.call(p.close)

    def op_set_min(self, n: int) -> t.Optional[fw.Res]:
        return self.call(setattr, self.pool, "min_runspaces", n)

    def op_set_max(self, n: int) -> t.Optional[fw.Res]:
        return self.call(setattr, self.pool, "max_runspaces", n)

    def op_avail(self) -> t.Optional[fw.Res]:
        return self.call(self.pool.get_available_runspaces)

    def op_reset(self) -> t.Optional[fw.Res]:
        return self.call(self.pool.reset_runspace_state)

    def op_keys(self) -> t.Optional[fw.Res]:
        return self.call(self.pool.exchange_keys)

    def op_disconnect(self) -> t.Optional[fw.Res]:
        return self.call(self.pool.disconnect)

    def op_connect(self) -> t.Optional[fw.Res]:
        return self.call(self.pool.connect)

    def op_alive(self, timeout: t.Optional[int] = None) -> t.Optional[fw.Res]:
        return self.call(self.pool.is_alive, timeout=timeout)

    def op_meta(self, name: str = "x") -> t.Optional[fw.Res]:
        return self.call(self.pool.get_command_metadata, name)

    def op_config(self) -> t.Optional[fw.Res]:
        return self.call(self.w.update_max_payload_size)

    def op_pools(self) -> t.Optional[fw.Res]:
        from pypsrp.powershell import RunspacePool

        return self.call(RunspacePool.get_runspace_pools, self.w)

    def op_adopt(self) -> t.Optional[fw.Res]:
        """Continue the disconnected pool from another client."""
        from pypsrp.powershell import RunspacePool

        if self.pool.state != 9:
            return None
        w2 = self.run.wsman(self.h, **self.args)
        r = self.call(RunspacePool.get_runspace_pools, w2)
        if not r.ok:
            return r
        mine = [p for p in r.value if p.id.upper() == self.pool.shell.id.upper()]
        if len(mine) != 1:
            r.ok = False
            r.exc = AssertionError("the disconnected pool is listed %d times" % len(mine))
            return r
        r = self.call(mine[0].connect)
        self.adopted = mine[0]
        if r.ok:
            self.pool, self.w = mine[0], w2
            for k, ps in list(self.pipes.items()):
                new = [x for x in self.pool.pipelines.values() if x.id.upper() == str(ps.id).upper()]
                if new:
                    self.pipes[k] = new[0]
        return r

    # -- process
    def op_send(self, k: int, data: str, end: bool = False) -> t.Optional[fw.Res]:
        p = self._pipe(k)
        return None if p is None else self.call(p.send, bytes.fromhex(data), end)

    def op_signal(self, k: int, which: str = "CTRL_C") -> t.Optional[fw.Res]:
        from pypsrp.shell import SignalCode

        p = self._pipe(k)
        return None if p is None or p.id is None else self.call(p.signal, getattr(SignalCode, which))


def mk_input(v: t.Any) -> t.Any:
    """["pad", n, ch] is a long string; anything else is itself."""
    if isinstance(v, list) and len(v) == 3 and v[0] == "pad":
        return v[2] * v[1]
    return v


def gen_inputs(rng: random.Random, big: int = 0) -> t.List:
    out: t.List = []
    for i in range(rng.randint(1, 5)):
        if big and rng.random() < 0.4:
            out.append(["pad", rng.randint(1, big), chr(97 + i)])
        else:
            out.append("in%d %s" % (i, values.text(rng)))
    return out


def gen_ops(rng: random.Random, kind: str, n: int = 8, big: int = 0) -> t.Tuple[t.List, t.List]:
    """Operations of a sensible session (never invalid for the state when nothing fails) and the server plans they need."""
    ops: t.List = [["open"]]
    plans: t.List = []
    k = 0
    if kind == "proc":
        live: t.List[int] = []
        waiting: t.Set[int] = set()
        for _ in range(n):
            r = rng.random()
            if not live or r < 0.35:
                w = rng.random() < 0.5
                plans.append([["out", "stdout", "6f75"]] + ([["echo"]] if w else [["sleep", rng.choice([0.1, 30.0])]]) + [["out", "stderr", "6572"], ["end", rng.randint(0, 9)]])
                ops.append(["begin", k])
                live.append(k)
                if w:
                    waiting.add(k)
                k += 1
            else:
                j = rng.choice(live)
                if j in waiting and r < 0.75:
                    e = rng.random() < 0.5
                    ops.append(["send", j, rng.randbytes(rng.choice([1, 20, 3000])).hex(), e])
                    if e:
                        waiting.discard(j)
                elif r < 0.85:
                    ops.append(["poll", j, rng.choice([None, None, 2, 5])])
                elif j in waiting or rng.random() < 0.3:
                    ops.append(["signal", j, rng.choice(["CTRL_C", "CTRL_BREAK"])])
                    waiting.discard(j)
                else:
                    ops.append(["end", j])
        for j in live:
            if j in waiting:
                ops.append(["send", j, "78", True])
            ops.append(["end", j])
        ops.append(["close"])
        return ops, plans
    live = []
    for _ in range(n):
        r = rng.random()
        if not live and r < 0.5 or r < 0.25:
            inp = gen_inputs(rng, big) if rng.random() < 0.5 else []
            plan = c.gen_plan(rng, 3, sleeps=(0.1, 20.0), depth=1)
            if inp:
                plan.insert(rng.randint(0, len(plan) - 1), [rng.choice(["wait_input", "echo_input"])])
            plans.append(plan)
            ops.append([rng.choice(["begin", "begin", "invoke"]), k, inp])
            if ops[-1][0] == "begin":
                live.append(k)
            elif rng.random() < 0.5:
                ops.append(["close_ps", k])
            k += 1
        elif live and r < 0.55:
            j = rng.choice(live)
            ops.append(["poll", j, rng.choice([None, None, 2, 5])])
        elif live and r < 0.7:
            j = rng.choice(live)
            ops.append(["end", j])
            if rng.random() < 0.7:
                ops.append(["close_ps", j])
            live.remove(j)
        elif live and r < 0.76:
            j = rng.choice(live)
            ops.append(["stop", j])
            live.remove(j)
        else:
            x = rng.choice(["set_min", "set_max", "avail", "reset", "keys", "alive", "cycle", "config", "pools", "meta"])
            if x in ("set_min", "set_max"):
                ops.append([x, rng.randint(1, 9)])
            elif x == "cycle":
                if not live:
                    ops += [["disconnect"], [rng.choice(["connect", "connect", "adopt"])]]
            elif x == "alive":
                ops.append([x, rng.choice([None, 5])])
            elif x == "meta":
                ops.append([x])
            else:
                ops.append([x])
    for j in live:
        ops.append(["end", j])
    ops.append(["close"])
    return ops, plans


def pipe_messages(pool: t.Any) -> t.Dict[t.Tuple[str, str], int]:
    n: t.Dict[t.Tuple[str, str], int] = {}
    for mtype, pid, _ in pool.messages:
        n[(mtype, pid)] = n.get((mtype, pid), 0) + 1
    return n
