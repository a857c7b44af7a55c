"""P06: no request is larger than the maximum envelope size in force; data is split instead; the limit grows as documented."""
from __future__ import annotations

import os
import random
import typing as t

from .. import clixml as cx
from .. import fw
from . import files

RUNS = {"quick": 1500, "thorough": 60000}
DEFAULT = 153600
GROWN = 512000


def pads(rng: random.Random, lim: int, n: int, cap: int) -> t.List[int]:
    """Data sizes around what fits one request: base64 turns 3 bytes into 4."""
    out = []
    pay = int((lim - 2000) * 3 / 4)
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            out.append(max(0, rng.choice([1, 1, 1, 2, 3]) * pay - rng.randint(-900, 2600)))
        elif r < 0.8:
            out.append(rng.randint(0, pay))
        else:
            out.append(rng.randint(0, 300))
        if sum(out) > cap:
            out[-1] = min(out[-1], 100)
    return out


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng, tiny=False)
    srv["resp_units"] = [10, 60]
    srv.pop("resp_bytes", None)
    srv["pool"]["frag"] = 32768
    ws: t.Dict[str, t.Any] = {}
    lim = DEFAULT
    if rng.random() < 0.75:
        lim = ws["max_envelope_size"] = rng.choice([8192, 10000, 12289, 16384, 20480, 32768, 33333, 65536, DEFAULT, DEFAULT + rng.choice([-1, 1]), 200000, 450000, 600000, rng.randint(8000, 40000)])
    if rng.random() < 0.4:
        ws["locale"] = rng.choice(["en-US", "sr-Cyrl-BA", "ca-ES-valencia", "de"])
        if rng.random() < 0.5:
            ws["data_locale"] = rng.choice(["en-US", "sr-Latn-RS", "ja"])
    if rng.random() < 0.3:
        ws["path"] = rng.choice(["wsman", "custom/wsman/endpoint", "a" * 60])
    if rng.random() < 0.3:
        srv["name"] = rng.choice(["h", "winrm-host-01.corp.example.com", "a" * 50 + "." + "b" * 40 + ".example.com"])
    srv["proto"] = rng.choice(["2.1", "2.2", "2.3", "2.3"])
    srv["max_kb"] = rng.choice([16, 33, 150, 500])
    cap = 500_000 if tier == "quick" else 1_500_000
    pool: t.Dict[str, t.Any] = {}
    if rng.random() < 0.5:
        pool["configuration_name"] = rng.choice(["Microsoft.PowerShell", "PowerShell.7.4.1", "microsoft.exchange", "JEA_Maintenance_Operators.v2", "c"])
    if rng.random() < 0.3:
        pool["no_profile"] = True
    if rng.random() < 0.3:
        pool["idle_timeout"] = rng.choice([60, 7200])
    grown = GROWN if lim == DEFAULT and srv["proto"] > "2.1" else lim
    app = pads(rng, lim, rng.choice([0, 0, 1, 2]), cap // 3)
    ops: t.List = []
    cur = grown
    for _ in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if r < 0.6:
            ops.append(["run", pads(rng, cur, rng.choice([0, 0, 1, 2, 3]), cap // 3), pads(rng, cur, rng.choice([0, 1, 2, 6, 20]), cap // 3), pads(rng, cur, rng.choice([0, 0, 0, 1, 2]), cap // 4)])
        elif r < 0.7:
            ops.append(["keys"])
        elif r < 0.75:
            ops.append(["calls"])
        elif r < 0.82:
            ops.append(["meta"])
        elif r < 0.92:
            buf = int((int((cur - 1900) / 4 * 3) - 82) / 4 * 3)
            ops.append(["copy", max(0, rng.choice([0, 1, buf, buf, 2 * buf, 3 * buf]) + rng.randint(-300, 300))])
            if ops[-1][1] > cap:
                ops[-1][1] = 0
        else:
            n = rng.choice([None, 8192, 20000, 65536, DEFAULT])
            ops.append(["update", n, rng.random() < 0.5])
            cur = (n or srv["max_kb"] * 1024)
            if cur == DEFAULT and srv["proto"] > "2.1":
                cur = GROWN if ops[-1][2] else cur
    return {"net": dict(fw.gen_net(rng), chunk=0), "srv": srv, "ws": ws, "pool": pool, "app": app, "ch": rng.choice(["a", "\u00e9", "\n", "<"]), "ops": ops}


def mk(n: int, ch: str) -> str:
    """A string whose PSRP form has about n bytes."""
    per = {"a": 1, "\u00e9": 2, "\n": 7, "<": 4}[ch]
    return ch * (n // per) + "z" * (n % per)


def valid(sc: t.Dict) -> bool:
    if any(o[0] not in ("run", "keys", "calls", "meta", "copy", "update") for o in sc["ops"]):
        return False
    return sc.get("ws", {}).get("max_envelope_size", DEFAULT) >= 8000 and sc["srv"].get("max_kb", 16) >= 8 and all(o[1] is None or o[1] >= 8000 for o in sc["ops"] if o[0] == "update")


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.host import PSHost, PSHostUserInterface
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    fl = files.Files(h)
    lines: t.List[str] = []

    class UI(PSHostUserInterface):
        def ReadLine(self, runspace, pipeline):
            return lines.pop(0)

    w = run.wsman()
    ch = sc.get("ch", "a")
    newer = sc["srv"].get("proto", "2.3") > "2.1"
    lim = [w.max_envelope_size]
    shell: t.List = [None]
    if not run.check(lim[0] == sc.get("ws", {}).get("max_envelope_size", DEFAULT), "limit", "the limit in force is %d before anything was done" % lim[0]):
        return
    seen = [0]

    def audit(what: str, opening: bool = False) -> bool:
        old = lim[0]
        if opening and newer and old == DEFAULT:
            lim[0] = GROWN
        for r in h.requests[seen[0] :]:
            want = {lim[0]}
            if opening and r["action"] in ("Create", "Send", "Receive"):
                want = {old, lim[0]} if r["action"] == "Receive" else {old}
            if opening and what != "opening":  # copy opens its own pool on the same connection
                want = {old, lim[0]}
            if not run.check(r["limit"] in want, "limit", "%s: a %s request declares %d, in force is %d" % (what, r["action"], r["limit"], max(want))):
                return False
            if not run.check(r["size"] <= r["limit"], "size", "%s: a %s request has %d bytes, the limit in force is %d" % (what, r["action"], r["size"], r["limit"])):
                return False
            run.cover["slack:%s:%d" % (r["action"], min(2000, (r["limit"] - r["size"]) // 100 * 100))] += 1
        seen[0] = len(h.requests)
        return run.check(w.max_envelope_size == lim[0], "limit", "%s: the limit in force is %d, should be %d" % (what, w.max_envelope_size, lim[0]))

    def open_pool(app: t.List[int]) -> t.Any:
        pool = RunspacePool(w, host=PSHost(None, None, False, "h", None, UI(), "1"), **sc.get("pool", {}))
        args = {"k%d" % i: mk(n, ch) for i, n in enumerate(app)}
        ok = run.must(run.call(pool.open, application_arguments=args or None), "open", "opening the pool")
        if not ok or not audit("opening", True):
            return None
        shell[0] = h.all_shells[-1].pool
        got = cx.get(h.all_shells[-1].pool.init, "ApplicationArguments")
        if app and not run.check([[cx.prim(k), cx.prim(v)] for k, v in got[1]["dct"] if k[1] != "PSVersionTable"] == [[k, v] for k, v in args.items()], "split", "application arguments of %r bytes arrived damaged" % (app,)):
            return None
        return pool

    pool = open_pool(sc.get("app", []))
    if pool is None:
        return run.problems("refused")
    for i, op in enumerate(sc["ops"]):
        what = "%s %d" % (op[0], i)
        if op[0] == "run":
            _, args, inp, host = op
            lines[:] = [mk(n, ch) for n in host]
            h.plans[:] = [[["host", 11, "ReadLine", [], True] for _ in host] + [["wait_input"]] * bool(inp) + [["end", "Completed"]]]
            ps = PowerShell(pool)
            ps.add_cmdlet("X")
            for n in args:
                ps.add_argument(mk(n, ch))
            r = run.call(ps.invoke, (mk(n, ch) for n in inp) if inp else None)
            if not run.must(r, "run", what):
                return run.problems("refused")
            pipe = shell[0].pipes[-1]
            ok = [cx.prim(a) for a in pipe.args()] == [mk(n, ch) for n in args] and [cx.prim(a) for a in pipe.inputs] == [mk(n, ch) for n in inp]
            ok = ok and [[cx.prim(a["mr"]) for a in hc["answers"]] for hc in pipe.host_calls] == [[mk(n, ch)] for n in host]
            if not run.check(ok, "split", "%s: arguments %r, input %r or host answers %r arrived damaged" % (what, args, inp, host)):
                return
            run.must(run.call(ps.close), "run", "closing a pipeline")
        elif op[0] == "keys":
            run.must(run.call(pool.exchange_keys), "run", what)
        elif op[0] == "calls":
            run.must(run.call(setattr, pool, "max_runspaces", 7), "run", what)
            run.must(run.call(pool.get_available_runspaces), "run", what)
            if sc["srv"].get("proto", "2.3") == "2.3":
                run.must(run.call(pool.reset_runspace_state), "run", what)
        elif op[0] == "meta":
            h.plans[:] = [[["out", ["S", "0"]], ["end", "Completed"]]]
            run.call(pool.get_command_metadata, "*")
        elif op[0] == "copy":
            if not audit(what):
                return
            if not copy(run, sc, h, fl, w, op[1], what):
                return run.problems("refused")
            if not audit(what, True):
                return
        else:
            r = run.call(w.update_max_payload_size, op[1])
            if not run.must(r, "run", what):
                return
            seen[0] = len(h.requests)
            lim[0] = op[1] or sc["srv"].get("max_kb", 500) * 1024
            if op[2]:
                run.must(run.call(pool.close), "run", "closing the pool")
                if not audit(what):
                    return
                pool = open_pool(sc.get("app", []))
                if pool is None:
                    return run.problems("refused")
        if not audit(what):
            return
        run.cover["op:" + op[0]] += 1
    run.must(run.call(pool.close), "run", "closing the pool")
    audit("closing")
    run.problems("refused")


def copy(run: fw.Run, sc: t.Dict, h: t.Any, fl: files.Files, w: t.Any, size: int, what: str) -> bool:
    import pypsrp.client

    path = os.path.join(fw.scratch_dir(run), "src")
    data = random.Random(size).randbytes(size)
    with open(path, "wb") as f:
        f.write(data)
    cl = run.client()
    cl.wsman = w
    h.plans[:] = [[["wait_input"], ["call", "copy"]]]
    r = run.call(cl.copy, path, "C:\\dest")
    if not run.must(r, "run", what):
        return False
    return run.check(fl.fs.get("C:\\dest") == data, "split", "%s: a copied file of %d bytes arrived damaged" % (what, size))
