"""One simulated run: simulator + network + hosts + real pypsrp clients, and the violations it shows."""
from __future__ import annotations

import collections
import hashlib
import os
import random
import re
import typing as t

from . import clixml as cx
from . import kernel, net, server, values


class Res:
    """Outcome of one client call."""

    __slots__ = ("ok", "value", "exc", "t0", "t1", "reqs")

    def __init__(self) -> None:
        self.ok = False
        self.value: t.Any = None
        self.exc: t.Optional[BaseException] = None
        self.t0 = self.t1 = 0.0
        self.reqs = 0

    @property
    def dur(self) -> float:
        return self.t1 - self.t0

    def __str__(self) -> str:
        return "returned %.120r" % (self.value,) if self.ok else "raised %s: %.300s" % (type(self.exc).__name__, self.exc)


class Run:
    def __init__(self, prop: str, sc: t.Dict, seed: int, scratch: str) -> None:
        self.prop = prop
        self.sc = sc
        self.seed = seed
        self.scratch = scratch
        self.sim = kernel.Sim("%s/%s" % (prop, seed), sc.get("max_steps", 60_000))
        nc = sc.get("net", {})
        self.sim.net = net.Net(self.sim, tuple(nc.get("lat", (0.001, 0.01))), nc.get("chunk", 0))  # type: ignore[attr-defined]
        self.net: net.Net = self.sim.net  # type: ignore[attr-defined]
        self.hosts: t.List[server.Host] = []
        self.viol: t.List[t.Tuple[str, str]] = []
        self.cover: t.Counter[str] = collections.Counter()
        self.warned: t.List[t.Any] = []
        self.rng = random.Random("run/%s/%s" % (prop, seed))

    # -- building blocks
    def host(self, cfg: t.Optional[t.Dict] = None, **kw: t.Any) -> server.Host:
        c = dict(cfg or {})
        c.update(kw)
        h = server.Host(self.sim, c)
        self.hosts.append(h)
        h.arm_windows()
        return h

    def wsman(self, h: t.Optional[server.Host] = None, **kw: t.Any) -> t.Any:
        from pypsrp.wsman import WSMan

        h = h or self.hosts[0]
        args = client_args(h.cfg)
        args.update(self.sc.get("ws", {}))
        args.update(kw)
        return WSMan(h.name, **args)

    def client(self, h: t.Optional[server.Host] = None, **kw: t.Any) -> t.Any:
        from pypsrp.client import Client

        h = h or self.hosts[0]
        args = client_args(h.cfg)
        args.update(self.sc.get("ws", {}))
        args.update(kw)
        return Client(h.name, **args)

    def call(self, fn: t.Callable, *a: t.Any, **k: t.Any) -> Res:
        r = Res()
        r.t0 = self.sim.now
        n0 = sum(len(h.requests) for h in self.hosts)
        try:
            r.value = fn(*a, **k)
            r.ok = True
        except Exception as e:
            r.exc = e
        r.t1 = self.sim.now
        r.reqs = sum(len(h.requests) for h in self.hosts) - n0
        return r

    def settle(self, secs: float = 5.0) -> None:
        """Let in-flight traffic land (no client code runs)."""
        self.sim.block(None, secs)

    # -- verdicts
    def bad(self, code: str, text: str) -> None:
        self.sim.log("VIOLATION", code)
        if len(self.viol) < 20:
            self.viol.append((code, text[:1500]))

    def check(self, cond: t.Any, code: str, text: str) -> bool:
        if not cond:
            self.bad(code, text)
        return bool(cond)

    def must(self, r: Res, code: str, what: str) -> bool:
        if not r.ok:
            self.bad(code, "%s %s" % (what, r))
        return r.ok

    def problems(self, code: str, kinds: t.Optional[t.Sequence[str]] = None, ignore: t.Sequence[str] = ()) -> None:
        for h in self.hosts:
            for k, text in h.problems:
                if (kinds is None or k in kinds) and k not in ignore:
                    self.bad(code if kinds is None else code + ":" + k, "server refused what the client sent (%s): %s" % (k, text))
                    return

    def same_value(self, tree: cx.Tree, got: t.Any) -> t.Optional[str]:
        return values.diff(tree, got)


def client_args(cfg: t.Dict) -> t.Dict:
    a: t.Dict[str, t.Any] = {"port": cfg.get("port", 5985), "ssl": cfg.get("ssl", False)}
    if cfg.get("proxy"):
        a["proxy"] = "http://proxy-%s:3128" % re.sub("[^a-z0-9]", "-", cfg.get("name", "srv").lower())
    mode = cfg.get("auth", "none")
    if mode in ("none", "basic"):
        u, p = cfg.get("cred", ["user", "pass"])
        a.update(auth="basic", username=u, password=p, encryption="auto" if a["ssl"] else "never")
    else:
        enc = cfg.get("client_enc") or ("always" if cfg.get("encrypt") else "never")
        a.update(auth=mode, username="DOM\\user", password="pass", encryption=enc)
    return a


def scratch_dir(run: Run) -> str:
    d = os.path.join(run.scratch, "run")
    os.makedirs(d, exist_ok=True)
    for name in os.listdir(d):
        p = os.path.join(d, name)
        if os.path.isfile(p) or os.path.islink(p):
            os.unlink(p)
    return d


# ---- shared generators ----------------------------------------------------------------------------


def gen_net(rng: random.Random) -> t.Dict:
    return {"lat": rng.choice([[0.0005, 0.002], [0.001, 0.05], [0.01, 0.4]]), "chunk": rng.choice([0, 0, 0, 1460, 137])}


def gen_pool_cfg(rng: random.Random, tiny: bool = True) -> t.Dict:
    p: t.Dict[str, t.Any] = {
        "frag": rng.choice([32768, 32768, 4096, 500, [1, 60], [1, 400], [20, 2000]] if tiny else [32768, 4096, [200, 8000]]),
        "bom": rng.random() < 0.3,
        "share_tn": rng.random() < 0.7,
    }
    if rng.random() < 0.4:
        p["interleave"] = True
    if rng.random() < 0.3:
        p["oid0"] = rng.choice([1000, 2**31, 2**32 + 5, 2**63])
    if rng.random() < 0.3:
        p["ci0"] = rng.choice([1000, 2**31, 2**40])
    if rng.random() < 0.3:
        p["start_delay"] = rng.choice([0.5, 15.0, 45.0])
    if rng.random() < 0.4:
        p["open"] = {"delay": rng.choice([0.1, 5.0, 15.0]), "delay_cap": rng.choice([0.0, 0.3, 3.0])}
    return p


def gen_srv(rng: random.Random, tiny: bool = True, auth: bool = True) -> t.Dict:
    c: t.Dict[str, t.Any] = {
        "resp_units": rng.choice([[1, 8], [1, 1], [1, 2], [1, 40], [5, 60]]),
        "pool": gen_pool_cfg(rng, tiny),
    }
    if rng.random() < 0.3:
        c["own_cmd_ids"] = True
    if rng.random() < 0.15:
        c["own_shell_ids"] = True
    if rng.random() < 0.3:
        c["coalesce"] = rng.choice([0.05, 1.0])
    if rng.random() < 0.3:
        c["think"] = rng.choice([0.01, 0.5, 2.0])
    if rng.random() < 0.3:
        c["pending_state"] = True
    if rng.random() < 0.3:
        c["end_with_data"] = True
    if rng.random() < 0.2:
        c["stream_chunk"] = rng.choice([1, 3, 100])
    if rng.random() < 0.15:
        c["resp_bytes"] = rng.choice([100, 1000, 20000])
    if rng.random() < 0.1:
        c["proto"] = rng.choice(["2.1", "2.2", "2.3"])
    if auth:
        r = rng.random()
        if r < 0.12:
            c.update(auth="ntlm", encrypt=True)
        elif r < 0.2:
            c.update(auth="negotiate", encrypt=True)
        elif r < 0.25:
            c.update(auth="ntlm", encrypt=False)
        elif r < 0.28:
            c.update(auth="credssp", encrypt=True)
        elif r < 0.38:
            c.update(auth="basic", cred=["user", "pass"])
        if c.get("encrypt") and rng.random() < 0.3:
            c["mime"] = "exchange"
        if not c.get("encrypt") and rng.random() < 0.1:
            c["ssl"] = True
            c["port"] = 5986
        if rng.random() < 0.08:
            c["proxy"] = True
    return c


def gen_ws(rng: random.Random) -> t.Dict:
    w: t.Dict[str, t.Any] = {}
    r = rng.random()
    if r < 0.25:
        ot = rng.choice([1, 5, 10, 15])
        w["operation_timeout"] = ot
        w["read_timeout"] = ot + rng.choice([5, 10])
    if rng.random() < 0.15:
        w["max_envelope_size"] = rng.choice([16384, 65536, 102400, 512000])
    if rng.random() < 0.12:
        w["reconnection_retries"] = rng.choice([1, 3])
    return w


RECS = ("error", "debug", "verbose", "warning", "progress", "information")


def gen_record(rng: random.Random, big: int = 0) -> t.List:
    k = rng.choice(RECS)
    if k == "progress":
        return ["rec", k, [values.text(rng, big), rng.randint(0, 9), values.text(rng), rng.choice([-1, 0, 50, 100])]]
    if k == "information":
        return ["rec", k, [values.tree(rng, 1, big), values.text(rng), [values.text(rng) for _ in range(rng.randint(0, 3))]]]
    msg = values.text(rng, big)
    if rng.random() < 0.15:
        return ["rec", k, {"msg": msg, "inv": gen_inv(rng)}]
    return ["rec", k, msg]


def gen_inv(rng: random.Random) -> t.Dict:
    return {
        "name": values.text(rng),
        "bound": [["p%d" % i, values.text(rng)] for i in range(rng.randint(0, 3))],
        "unbound": [values.text(rng) for _ in range(rng.randint(0, 2))],
        "expect": rng.random() < 0.5,
        "line": values.text(rng),
        "offset": rng.randint(-1, 300),
        "num": rng.randint(0, 9999),
        "hist": rng.choice([-1, 0, 7, 2**40]),
    }


def pick(rng: random.Random, seq: t.Sequence) -> t.Any:
    return seq[rng.randrange(len(seq))]


def h16(x: t.Any) -> str:
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]
