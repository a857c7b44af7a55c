"""P05: commands, arguments, input, host answers and application arguments reach the server complete, in order and once."""
from __future__ import annotations

import random
import typing as t

from .. import clixml as cx
from .. import fw, values
from . import build as b
from . import common as c

RUNS = {"quick": 2400, "thorough": 120000}


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    ws.pop("max_envelope_size", None)
    if rng.random() < 0.6:
        ws["max_envelope_size"] = rng.choice([12288, 16384, 16385, 20001, 65536, 102400, 153600, 153601, 512000])
    if rng.random() < 0.3:
        srv["proto"] = rng.choice(["2.1", "2.2", "2.3"])
    big = rng.choice([0, 0, 2000, 30000, 120000, 400000 if rng.random() < 0.4 else 9000])
    if big > 30000 and ws.get("max_envelope_size", 99999) < 30000:
        big = 60000
    if big:
        srv["pool"]["frag"] = rng.choice([32768, [500, 9000]])
        srv.pop("resp_bytes", None)
    if rng.random() < 0.1 and srv.get("auth", "none") in ("none", "basic"):
        srv["conn_close"] = True
    pipes: t.List[t.Dict] = []
    for _ in range(rng.choice([1, 2, 3])):
        inp = b.gen_input(rng, big)
        p: t.Dict[str, t.Any] = {"ops": b.gen_build(rng, big if rng.random() < 0.5 else 0), "input": inp}
        for k, v in (("add_to_history", True), ("redirect_shell_error_to_out", True), ("apartment_state", rng.choice([0, 1, 2])), ("remote_stream_options", rng.choice([0, 1, 2, 4, 8, 15, 5, 10]))):
            if rng.random() < 0.3:
                p.setdefault("kw", {})[k] = v
        if rng.random() < 0.3:
            p["history"] = values.text(rng)
        if rng.random() < 0.3:
            p["rerun"] = b.gen_build(rng, 0, 1) if rng.random() < 0.6 else []
            if rng.random() < 0.3:
                p["rerun"].insert(0, ["clear"])
        if rng.random() < 0.2:
            p["nested"] = b.gen_build(rng, 0, 2)
        p["mode"] = rng.choice(["invoke", "begin"])
        p["hosts"] = [[rng.choice([11, 11, 1]), values.text(rng, big)] for _ in range(rng.choice([0, 0, 1, 3]))]
        calls = [["host", m, {11: "ReadLine", 1: "GetName"}[m], [], True] for m, _ in p["hosts"]]
        end = [["end", "Completed"]]
        wait = [] if inp is None else [[rng.choice(["wait_input", "wait_input", "wait_input" if big else "echo_input"])]]
        p["plan"] = (calls if "nested" not in p else [["sleep", 200.0]]) + wait + end
        p["rplan"] = wait + end
        pipes.append(p)
    app: t.Optional[t.List] = None
    if rng.random() < 0.4:
        app = [[x, values.spec(rng, 2, big)] for x in rng.sample(["a", "B b", "_x41", "k"], rng.randint(0, 4))]
    return {
        "net": fw.gen_net(rng),
        "srv": srv,
        "ws": ws,
        "pool": {"min_runspaces": rng.randint(1, 3), "max_runspaces": rng.randint(3, 9), "apartment_state": rng.choice([0, 1, 2]), "thread_options": rng.choice([0, 1, 2, 3])},
        "host": rng.choice([0, 1, 2]),
        "app": app,
        "pipes": pipes,
    }


def mk_host(run: fw.Run, kind: int, lines: t.List[str]) -> t.Any:
    from pypsrp.host import PSHost, PSHostUserInterface

    class UI(PSHostUserInterface):
        def ReadLine(self, runspace, pipeline):
            return lines.pop(0)

    class H(PSHost):
        def GetName(self, runspace, pipeline):
            return lines.pop(0)

    if kind == 0:
        return None
    return H(None, None, False, "h", None, UI() if kind == 2 else None, "1.0")


def host_info(kind: int) -> t.Dict[str, t.Any]:
    return {"_isHostNull": kind == 0, "_isHostUINull": kind < 2, "_isHostRawUINull": True, "_useRunspaceHost": kind == 0}


def host_diff(v: cx.Tree, kind: int, what: str) -> t.Optional[str]:
    for k, want in host_info(kind).items():
        if b.prop(v, k) != ["B", want]:
            return "%s %s is %r, should be %r" % (what, k, b.prop(v, k), want)
    return None


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    w = run.wsman()
    lines: t.List[str] = []
    kind = sc.get("host", 0)
    pool = RunspacePool(w, host=mk_host(run, kind, lines), **sc.get("pool", {}))
    memo: t.Dict = {}
    app = sc.get("app")
    args = None if app is None else {k: values.build(s, memo) for k, s in app}
    if not run.must(run.call(pool.open, application_arguments=args), "open", "opening a pool with no fault on it"):
        return run.problems("refused")
    sp = h.all_shells[0].pool
    if not check_init(run, sc, sp, kind):
        return
    for i, p in enumerate(sc.get("pipes", [])):
        if kind == 0 or kind == 1 and any(m > 10 for m, _ in p.get("hosts", [])):
            hosts: t.List = []
        else:
            hosts = [] if p.get("nested") is not None else p.get("hosts", [])
        lines[:] = [x for _, x in hosts]
        if not one(run, sc, h, sp, pool, p, kind, hosts, i):
            return
    run.must(run.call(pool.close), "close", "closing the pool")
    run.problems("refused")


def one(run: fw.Run, sc: t.Dict, h: t.Any, sp: t.Any, pool: t.Any, p: t.Dict, kind: int, hosts: t.List, i: int) -> bool:
    from pypsrp.exceptions import InvalidPSRPOperation
    from pypsrp.powershell import PowerShell

    ps = PowerShell(pool)
    proto = sc["srv"].get("proto", "2.3")
    model = b.Model(proto)
    memo: t.Dict = {}

    def apply(target: t.Any, m: b.Model, ops: t.List) -> bool:
        for op in ops:
            if op[0] not in ("cmdlet", "script", "command", "clear") and not m.cmds:
                continue
            ok = m.apply(op)
            r = run.call(b.apply_real, target, pool, op, memo)
            if not run.check(r.ok == ok and (ok or isinstance(r.exc, InvalidPSRPOperation)), "build", "%r %s" % (op[:3], r)):
                return False
        return True

    if not apply(ps, model, p["ops"]) or not model.cmds:
        return not run.viol
    if "history" in p:
        ps.history_string = p["history"]
    kw = p.get("kw", {})
    n0 = len(sp.pipes)
    nested = p.get("nested")
    inp = p.get("input")
    h.plans[:] = [[st for st in p.get("plan", [["end", "Completed"]]) if st[0] != "host" or hosts]]
    if nested is not None or p.get("mode") == "begin":
        r = run.call(ps.begin_invoke, b.mk_input(inp, pool), **kw)
    else:
        r = run.call(ps.invoke, b.mk_input(inp, pool), **kw)
    if not run.must(r, "run", "running pipeline %d" % i):
        run.problems("refused")
        return False
    ids = b.memo_of(p["ops"])
    if nested is not None:
        nps = ps.create_nested_power_shell()
        nm = b.Model(proto)
        if not apply(nps, nm, nested):
            return False
        if nm.cmds:
            h.plans[:] = [[["end", "Completed"]]]
            if not run.must(run.call(nps.invoke), "run", "running a nested pipeline"):
                return False
            ids2 = dict(ids)
            ids2.update(b.memo_of(nested))
            if not check(run, sc, sp.pipes[n0 + 1], nm, {}, None, True, None, kind, ids2, "nested pipeline"):
                return False
            run.cover["nested"] += 1
    if not run.must(run.call(ps.end_invoke), "run", "waiting for pipeline %d" % i):
        return False
    if not run.check(len(sp.pipes) >= n0 + 1, "count", "pipeline %d never reached the server" % i):
        return False
    pipe = sp.pipes[n0]
    if not check(run, sc, pipe, model, kw, inp, False, p.get("history"), kind, ids, "pipeline %d" % i):
        return False
    answers = [[a["mr"] for a in hc["answers"]] for hc in pipe.host_calls]
    if not run.check(answers == [[["S", x]] for _, x in hosts][: len(answers)] and len(answers) == len(hosts), "answer", "pipeline %d: the server got host answers %.300r, the host gave %.300r" % (i, answers, hosts)):
        return False
    if hosts:
        run.cover["host_answers"] += len(hosts)
    if "rerun" in p:
        if not run.must(run.call(ps.close), "close", "closing a finished pipeline"):
            return False
        if not apply(ps, model, p["rerun"]):
            return False
        if not model.cmds:
            return True
        n1 = len(sp.pipes)
        h.plans[:] = [p.get("rplan", [["end", "Completed"]])]
        if not run.must(run.call(ps.invoke, b.mk_input(inp, pool)), "run", "running pipeline %d again" % i):
            run.problems("refused")
            return False
        ids.update(b.memo_of(p["rerun"]))
        run.cover["rerun"] += 1
        if not check(run, sc, sp.pipes[n1], model, {}, inp, False, p.get("history"), kind, ids, "second run of pipeline %d" % i):
            return False
    return True


def check_init(run: fw.Run, sc: t.Dict, sp: t.Any, kind: int) -> bool:
    if not run.check(sp.init is not None and sp.capability is not None, "init", "the pool opened without its initialisation message"):
        return False
    names = [m for m, _, _ in sp.messages]
    if not run.check(names == ["SESSION_CAPABILITY", "INIT_RUNSPACEPOOL"], "init", "opening sent %r" % names):
        return False
    pc = sc.get("pool", {})
    for key, want in (("MinRunspaces", pc.get("min_runspaces", 1)), ("MaxRunspaces", pc.get("max_runspaces", 1))):
        if not run.check(b.prop(sp.init, key) == ["I32", want], "init", "%s sent as %r, asked for %d" % (key, b.prop(sp.init, key), want)):
            return False
    d = (
        b.enum_diff(b.prop(sp.init, "ApartmentState"), pc.get("apartment_state", 2), None, "pool apartment state")
        or b.enum_diff(b.prop(sp.init, "PSThreadOptions"), pc.get("thread_options", 0), None, "pool thread options")
        or host_diff(b.prop(sp.init, "HostInfo"), kind, "pool host info")
    )
    if not d:
        app = sc.get("app")
        v = b.prop(sp.init, "ApplicationArguments")
        if app is None:
            d = None if v in (["Nil"], ["absent"]) else "no application arguments given, server got %.100r" % (v,)
        else:
            d = values.spec_diff({"k": "dict", "v": [[{"k": "str", "v": k}, s] for k, s in app]}, v)
    return run.check(not d, "init", "%s" % d)


def check(run: fw.Run, sc: t.Dict, pipe: t.Any, model: b.Model, kw: t.Dict, inp: t.Any, nested: bool, hist: t.Optional[str], kind: int, ids: t.Dict, what: str) -> bool:
    v = pipe.create
    if not run.check(v is not None and pipe.kind == "CREATE_PIPELINE", "count", "%s was never created on the server" % what):
        return False
    ap = kw.get("apartment_state")
    for key, want in (
        ("NoInput", ["B", inp is None]),
        ("AddToHistory", ["B", kw.get("add_to_history", False)]),
        ("IsNested", ["B", nested]),
    ):
        if not run.check(b.prop(v, key) == want, "flags", "%s: %s is %r, should be %r" % (what, key, b.prop(v, key), want)):
            return False
    pt = b.prop(v, "PowerShell")
    for key, want in (
        ("IsNested", ["B", nested]),
        ("History", ["Nil"] if hist is None else ["S", hist]),
        ("RedirectShellErrorOutputPipe", ["B", kw.get("redirect_shell_error_to_out", False)]),
    ):
        if not run.check(b.prop(pt, key) == want, "flags", "%s: %s is %r, should be %r" % (what, key, b.prop(pt, key), want)):
            return False
    d = (
        b.enum_diff(b.prop(v, "ApartmentState"), sc.get("pool", {}).get("apartment_state", 2) if ap is None else ap, None, "apartment state")
        or b.enum_diff(b.prop(v, "RemoteStreamOptions"), kw.get("remote_stream_options", 15), None, "remote stream options")
        or host_diff(b.prop(v, "HostInfo"), kind, "host info")
        or b.pipe_diff(model, pt, ids)
    )
    if not run.check(not d, "pipeline", "%s: %s" % (what, d)):
        return False
    want = b.input_specs(inp)
    if not run.check(len(pipe.inputs) == len(want), "input", "%s: the server got %d input objects, the caller gave %d" % (what, len(pipe.inputs), len(want))):
        return False
    memo: t.Dict = {}
    values._ids(inp, memo)
    for j, (s, g) in enumerate(zip(want, pipe.inputs)):
        d = None
        try:
            values.cmp_spec(b.plain(s), g, "input %d" % j, {}, memo)
        except values.Mismatch as e:
            d = str(e)
        if not run.check(not d, "input", "%s: %s" % (what, d)):
            return False
    exp = 0 if inp is None else 1
    if not run.check(pipe.input_ended == exp and not pipe.after_end, "end", "%s: end-of-input signalled %d times, should be %d" % (what, pipe.input_ended, exp)):
        return False
    if inp is not None:
        run.cover["input:" + inp[0]] += 1
    run.cover["statements:%d" % min(3, len(model.statements()))] += 1
    run.cover["proto:" + model.proto] += 1
    return True
