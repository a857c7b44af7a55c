"""P25: values sent as argument or input and echoed back come back equal, whatever was transferred before on the same pool."""
from __future__ import annotations

import queue
import random
import typing as t

from .. import fw, values
from . import build as b
from . import common as c

RUNS = {"quick": 2600, "thorough": 150000}


def gen_value(rng: random.Random, depth: int, big: int, labels: t.List[str]) -> t.Dict:
    s = values.spec(rng, depth, big, labels=labels)
    if rng.random() < 0.15:
        keys = rng.choice([[{"k": "int", "v": x} for x in (0, 1, -5)], [{"k": "uuid", "v": "%032x" % rng.getrandbits(128)}], [{"k": "bool", "v": True}, {"k": "str", "v": "true"}]])
        return {"k": "dict", "v": [[k, values.spec(rng, depth - 1, 0, labels=labels)] for k in keys]}
    if rng.random() < 0.1:
        cls, kw = rng.choice([
            ("Size", {"width": rng.randint(0, 999), "height": 25}), ("Coordinates", {"x": rng.randint(-5, 5), "y": 3}), ("Color", {"value": rng.randint(0, 15)}),
            ("ApartmentState", {"value": rng.randint(0, 2)}), ("PSThreadOptions", {"value": rng.randint(0, 3)}), ("RemoteStreamOptions", {"value": rng.choice([1, 2, 4, 8, 15])}),
            ("CommandOrigin", {"value": rng.randint(0, 1)}), ("KeyInfoDotNet", {"code": rng.randint(0, 99), "character": rng.choice("aZ0"), "control_key_state": rng.choice([0, 8]), "key_down": True}),
        ])
        s = {"k": "cobj", "cls": cls, "kw": kw}
        if rng.random() < 0.5:
            s = {"k": "list", "v": [s, dict(s)]}
    return s


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    big = rng.choice([0, 0, 0, 3000, 40000, 200000 if rng.random() < 0.3 else 100])
    if big > 100:
        srv["pool"]["frag"] = rng.choice([32768, [500, 9000]])
        srv.pop("resp_bytes", None)
        srv["resp_units"] = [10, 60]
    steps: t.List = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        r = rng.random()
        labels: t.List[str] = []
        vals = [gen_value(rng, rng.choice([0, 1, 2, 3]), big, labels) for _ in range(rng.choice([1, 1, 2, 4, 8]))]
        if r < 0.4:
            steps.append(["args", vals, rng.random() < 0.3])
        elif r < 0.75:
            steps.append(["input", vals])
        elif r < 0.9:
            steps.append(["noise", c.gen_plan(rng, rng.choice([2, 8]), big=big // 4, sleeps=(0.01,))])
        else:
            steps.append(["two", vals, [gen_value(rng, 2, 0, []) for _ in range(rng.randint(1, 3))]])
        if rng.random() < 0.1:
            steps.append(["keys"])
    return {"net": dict(fw.gen_net(rng), chunk=0), "srv": srv, "ws": ws, "steps": steps}


def compare(run: fw.Run, what: str, specs: t.List, got: t.List, flat: bool) -> bool:
    if not run.check(len(got) == len(specs), "count", "%s: %d values sent, %d came back" % (what, len(specs), len(got))):
        return False
    memo: t.Dict = {}
    memo2: t.Dict = {}
    values._ids(specs, memo2)
    for i, s in enumerate(specs):
        want = values.build(s, memo)
        d = values.same(want, got[i], "%s, value %d" % (what, i))
        if not run.check(not d, "value", "%s" % d):
            return False
        run.cover["kind:" + s["k"] + (":" + s["tag"] if s["k"] == "tagged" else "")] += 1
    return True


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    w = run.wsman()
    pool = RunspacePool(w)
    if not run.must(run.call(pool.open), "open", "opening the pool"):
        return
    for i, st in enumerate(sc["steps"]):
        what = "%s %d" % (st[0], i)
        if st[0] in ("args", "two"):
            h.plans[:] = [[["echo_args"], ["end", "Completed"]], [["echo_input"], ["end", "Completed"]]]
            memo: t.Dict = {}
            ps = PowerShell(pool)
            ps.add_cmdlet("Echo")
            vals = [values.build(s, memo) for s in st[1]]
            for v in vals:
                if st[0] == "args" and st[2]:
                    ps.add_parameter("P", v)
                else:
                    ps.add_argument(v)
            if st[0] == "two":
                other = PowerShell(pool)
                other.add_cmdlet("Echo")
                memo3: t.Dict = {}
                if not run.must(run.call(ps.begin_invoke), "run", what) or not run.must(run.call(other.begin_invoke, [values.build(s, memo3) for s in st[2]]), "run", what):
                    return run.problems("refused")
                r2 = run.call(other.end_invoke)
                if not run.must(r2, "run", what) or not compare(run, what + " input", st[2], other.output, False):
                    return
                r = run.call(ps.end_invoke)
            else:
                r = run.call(ps.invoke)
            if not run.must(r, "run", what):
                return run.problems("refused")
            if not compare(run, what, st[1], ps.output, False):
                return
            # the caller's own values are left alone
            memo4: t.Dict = {}
            for s, v in zip(st[1], vals):
                fresh = values.build(s, memo4)
                d = None if isinstance(v, queue.Queue) else values.same(fresh, v, what)
                if not run.check(not d, "mutated", "sending changed the caller's value: %s" % d):
                    return
        elif st[0] == "input":
            h.plans[:] = [[["echo_input"], ["end", "Completed"]]]
            memo2: t.Dict = {}
            ps = PowerShell(pool)
            ps.add_cmdlet("Echo")
            r = run.call(ps.invoke, [values.build(s, memo2) for s in st[1]])
            if not run.must(r, "run", what):
                return run.problems("refused")
            if not compare(run, what, st[1], ps.output, True):
                return
        elif st[0] == "noise":
            h.plans[:] = [st[1]]
            ps = PowerShell(pool)
            ps.add_script("noise")
            run.call(ps.invoke)
        elif st[0] == "keys":
            if not run.must(run.call(pool.exchange_keys), "run", what):
                return
        run.cover["step:" + st[0]] += 1
    run.must(run.call(pool.close), "close", "closing the pool")
    run.problems("refused")
