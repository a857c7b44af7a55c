"""P20: independent clients used from different threads at the same time do not affect one another.

Each thread runs a whole scenario of another check, with that check's own oracle, or a session on a host the threads share.
"""
from __future__ import annotations

import hashlib
import importlib
import os
import random
import typing as t

from .. import clixml as cx
from .. import fw, server
from . import common as c
from . import files
from . import session as s

RUNS = {"quick": 560, "thorough": 40000}
ALONE = ("p01", "p02", "p05", "p09", "p10", "p12", "p13", "p14", "p17", "p18", "p24", "p25")
DENSE = ("p05", "p25", "p25", "p01", "p13", "p14")
NAMES: t.Dict[str, str] = {}


class NetView:
    """The part of the network one thread's hosts see."""

    def __init__(self, net: t.Any, hosts: t.List) -> None:
        self._net, self._hosts = net, hosts

    def _names(self) -> t.Set[str]:
        return {h.name for h in self._hosts}

    @property
    def attempts(self) -> t.List:
        names = self._names()
        return [a for a in self._net.attempts if a[1] in names or any(a[1].startswith("proxy-" + n) for n in names)]

    @property
    def conns(self) -> t.List:
        return [x for x in self._net.conns if getattr(x.ep, "host", x.ep) in self._hosts or x.ep in self._hosts]

    def __getattr__(self, k: str) -> t.Any:
        return getattr(self._net, k)


class Part(fw.Run):
    """A check's view of the run: its own hosts and settings, the common clock, network, scheduler and verdict."""

    def __init__(self, run: fw.Run, i: int, sc: t.Dict) -> None:
        self.run, self.i = run, i
        self.prop, self.sc, self.seed = run.prop, sc, run.seed
        self.scratch = os.path.join(run.scratch, "part%d" % i)
        os.makedirs(self.scratch, exist_ok=True)
        self.sim = run.sim
        self.hosts = []
        self.net = NetView(run.net, self.hosts)  # type: ignore[assignment]
        self.viol: t.List[t.Tuple[str, str]] = []
        self.cover = run.cover
        self.warned = run.warned
        self.rng = random.Random("run/%s/%s/%d" % (run.prop, run.seed, i))

    def host(self, cfg: t.Optional[t.Dict] = None, **kw: t.Any) -> server.Host:
        d = dict(cfg or {})
        d.update(kw)
        d["name"] = "h%d-%d" % (self.i, len(self.hosts))
        h = super().host(d)
        self.run.hosts.append(h)
        return h


def gen_part(rng: random.Random, tier: str, dense: bool = False) -> t.Dict:
    if dense:
        return gen_alone(rng, tier, rng.choice(DENSE), 12000)
    r = rng.random()
    if r < 0.3:
        kind = rng.choice(["pool", "pool", "proc"])
        mates = []
        for _ in range(rng.choice([2, 2, 3])):
            ops, plans = s.gen_ops(rng, kind, rng.choice([2, 5, 9]))
            # adopting a pool gives new objects for its pipelines
            ops = [["connect"] if o[0] == "adopt" else o for o in ops]
            mates.append({"ops": ops, "plans": plans})
        srv = fw.gen_srv(rng)
        srv.pop("proto", None)  # the sessions use what only the newest protocol offers
        return {"kind": kind, "srv": srv, "ws": fw.gen_ws(rng), "mates": mates}
    if r < 0.42:
        ops = []
        for _ in range(rng.randint(1, 3)):
            ops.append([rng.choice(["copy", "fetch"]), rng.choice([0, 10, 5000, 40000]), rng.choice(["-", "user"])])
        srv = fw.gen_srv(rng)
        srv["pool"]["frag"] = rng.choice([32768, 4096])
        srv.pop("resp_bytes", None)
        return {"kind": "files", "srv": srv, "ws": fw.gen_ws(rng), "ops": ops}
    # probes: while one thread must make no connection the others have to
    return gen_alone(rng, tier, "p17" if r < 0.6 else rng.choice(ALONE), 30000)


def gen_alone(rng: random.Random, tier: str, name: str, size: int) -> t.Dict:
    for _ in range(20):
        sc = importlib.import_module("psim.checks." + name).gen(rng, tier)
        if len(repr(sc)) < size:
            break
    if name == "p24":
        for d in sc["calls"]:
            d.pop("faults", None)
    return {"kind": name, "sc": sc}


def gen(rng: random.Random, tier: str) -> t.Dict:
    dense = rng.random() < 0.35  # much the same work in every thread, in step, switching inside it
    parts = [gen_part(rng, tier, dense) for _ in range(rng.choice([2, 2, 3, 4]))]
    for p in parts:
        srv = p.get("srv") or p["sc"].get("srv")
        if p["kind"] != "p17" and srv is not None and srv.get("auth", "none") in ("none", "basic") and rng.random() < 0.3:
            srv["conn_close"] = True
    return {
        "net": dict(fw.gen_net(rng), chunk=0),
        "parts": parts,
        "preempt": rng.choice([0.02, 0.1]) if dense else rng.choice([0.0, 0.0, 0.0, 0.0, 0.001]),
        "stagger": [0.0 for _ in parts] if dense or rng.random() < 0.2 else [rng.choice([0.0, 0.0, 0.01, 1.0, 20.0]) for _ in parts],
        "max_steps": 400_000,
    }


def run(run: fw.Run, sc: t.Dict) -> None:
    import xml.etree.ElementTree as ET

    import pypsrp
    from urllib3 import poolmanager

    NAMES.update({} if NAMES else ET._namespace_map)  # what an earlier run may have left half done
    ET._namespace_map.clear()
    ET._namespace_map.update(NAMES)
    shared = dict(poolmanager.pool_classes_by_scheme)
    views: t.List[Part] = []
    jobs: t.List[t.Tuple[str, t.Callable[[], None]]] = []
    for i, p in enumerate(sc["parts"]):
        if p["kind"] in ("pool", "proc"):
            jobs += mates(run, views, i, p)
        elif p["kind"] == "files":
            v = Part(run, i, {"ws": p.get("ws", {})})
            views.append(v)
            jobs.append(("files%d" % i, lambda v=v, p=p: part_files(v, p)))  # type: ignore[misc]
        else:
            v = Part(run, i, p["sc"])
            views.append(v)
            mod = importlib.import_module("psim.checks." + p["kind"])
            jobs.append(("%s.%d" % (p["kind"], i), lambda v=v, p=p, mod=mod: mod.run(v, p["sc"])))  # type: ignore[misc]
    run.sim.preempt_p = sc.get("preempt", 0.0)
    prefix = os.path.dirname(pypsrp.__file__)

    def inside(code: t.Any) -> bool:
        """Where a thread may be preempted between two lines: the library, and what it calls that keeps global state."""
        return code.co_filename.startswith(prefix) and code.co_name != "<module>" or code.co_name == "register_namespace"

    tasks = []
    lags = sc.get("stagger") or [0.0]
    for n, (name, fn) in enumerate(jobs):

        def body(fn: t.Callable = fn, lag: float = lags[n % len(lags)]) -> None:
            if lag:
                run.sim.block(None, lag)
            fn()

        tasks.append(run.sim.spawn(name, body, inside if run.sim.preempt_p else None))
    try:
        run.sim.run_tasks()
    finally:
        run.sim.tasks = []
        for v in views:
            for code, text in v.viol:
                if len(run.viol) < 20:
                    run.viol.append((code, "thread %d: %s" % (v.i, text)))
    order = hashlib.sha256("\n".join(run.sim.sched_trace).encode()).hexdigest()[:16]
    run.sim.log("schedule", order)
    run.cover["threads"] += len(tasks)
    for task in tasks:
        if task.exc is not None and not run.viol:
            raise task.exc
    run.check(dict(poolmanager.pool_classes_by_scheme) == shared, "global", "creating clients changed the connection classes of every other user of urllib3 in the process")


def mates(run: fw.Run, views: t.List[Part], i: int, p: t.Dict) -> t.List[t.Tuple[str, t.Callable[[], None]]]:
    """Several clients of one host."""
    plans: t.List = []
    base = []
    for m in p["mates"]:
        base.append(len(plans))
        plans += m["plans"]
    cfg = dict(p["srv"], by_name=True, **{"plans" if p["kind"] == "pool" else "procs": plans})
    first = Part(run, i, {"ws": p.get("ws", {})})
    h = first.host(cfg)
    out = []
    for j, m in enumerate(p["mates"]):
        v = first if j == 0 else Part(run, i, {"ws": p.get("ws", {})})
        if j:
            v.hosts.append(h)
        views.append(v)
        out.append(("%s%d.%d" % (p["kind"], i, j), lambda v=v, m=m, k=base[j]: part_session(v, h, p["kind"], m["ops"], k)))
    return out  # type: ignore[return-value]


def part_session(run: Part, h: t.Any, kind: str, ops: t.List, base: int) -> None:
    ses = s.Session(run, h, kind)
    stopped: t.Set[int] = set()
    waited: t.List[int] = []
    for op in ops:
        op = list(op)
        if op[0] == "alive" and h.cfg.get("conn_close"):
            continue  # nothing to ask over
        if op[0] in ("begin", "poll", "end", "invoke", "stop", "close_ps", "send", "signal"):
            op[1] += base
        r = ses.do(op)
        if r is None:
            continue
        if op[0] == "stop" and not r.ok and type(r.exc).__name__ == "InvalidPipelineStateError":
            continue  # it was over already
        if not run.must(r, "call", "%s in a client of its own" % op[0]):
            return
        if op[0] in ("stop", "signal"):
            stopped.add(op[1])
        elif op[0] in ("end", "invoke"):
            waited.append(op[1])
    for k in waited:
        if k in stopped:
            continue
        if kind == "pool":
            ps = ses.pipes[k]
            p = c.pipe_of(h, ps)
            if not run.check(p is not None, "data", "pipeline %d never ran" % k) or not c.check_pipe(run, p, ps, "data", "pipeline %d" % k):
                return
            if any(st[0] in ("echo_input", "wait_input") for st in p.plan):
                got = [cx.prim(x) for x in p.inputs]
                if not run.check(got == ses.inputs.get(k, []), "input", "pipeline %d was given %.200r, the server received %.200r" % (k, ses.inputs.get(k), got)):
                    return
        else:
            pr = ses.pipes[k]
            sp = [x for sh in h.all_shells if sh.kind == "cmd" for x in sh.all_commands if x.cmd == "exe%d" % k]
            if not run.check(len(sp) == 1, "data", "process %d ran %d times" % (k, len(sp))):
                return
            x = sp[0]
            if not run.check((pr.stdout, pr.stderr, pr.rc) == (x.stdout, x.stderr, x.target.rc), "data", "process %d: %.200r came back, the process wrote %.200r" % (k, (pr.stdout, pr.stderr, pr.rc), (x.stdout, x.stderr, x.target.rc))):
                return
    run.cover["shared_host:" + kind] += 1


def part_files(run: Part, p: t.Dict) -> None:
    h = run.host(p["srv"])
    fl = files.Files(h)
    cl = run.client()
    rng = random.Random("files/%s/%d" % (run.seed, run.i))
    for n, (op, size, _) in enumerate(p["ops"]):
        data = rng.randbytes(size)
        path = os.path.join(run.scratch, "f%d" % n)
        if op == "copy":
            h.plans = [[["wait_input"], ["call", "copy"]]]
            with open(path, "wb") as f:
                f.write(data)
            r = run.call(cl.copy, path, "C:\\x%d.bin" % n)
            if not run.must(r, "copy", "copying a file") or not run.check(fl.fs.get("C:\\x%d.bin" % n) == data, "copy", "the copied file has other content"):
                return
        elif data:
            h.plans = [[["call", "fetch"]]]
            fl.fs["C:\\y%d.bin" % n] = data
            r = run.call(cl.fetch, "C:\\y%d.bin" % n, path)
            if not run.must(r, "fetch", "fetching a file"):
                return
            with open(path, "rb") as f:
                if not run.check(f.read() == data, "fetch", "the fetched file has other content"):
                    return
        if os.path.exists(path):
            os.unlink(path)
    run.cover["files"] += 1
