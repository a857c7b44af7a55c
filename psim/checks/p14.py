"""P14: every host call is dispatched once, in order, to the right method, and answered by its own identifiers."""
from __future__ import annotations

import random
import typing as t
import uuid

from .. import clixml as cx
from .. import fw, values
from . import common as c

RUNS = {"quick": 2200, "thorough": 150000}

NAMES = {
    1: "GetName", 2: "GetVersion", 3: "GetInstanceId", 4: "GetCurrentCulture", 5: "GetCurrentUICulture", 6: "SetShouldExit", 7: "EnterNestedPrompt",
    8: "ExitNestedPrompt", 9: "NotifyBeginApplication", 10: "NotifyEndApplication", 11: "ReadLine", 12: "ReadLineAsSecureString", 13: "Write1",
    14: "Write2", 15: "WriteLine1", 16: "WriteLine2", 17: "WriteLine3", 18: "WriteErrorLine", 19: "WriteDebugLine", 20: "WriteProgress",
    21: "WriteVerboseLine", 22: "WriteWarningLine", 23: "Prompt", 24: "PromptForCredential1", 25: "PromptForCredential2", 26: "PromptForChoice",
    27: "GetForegroundColor", 28: "SetForegroundColor", 29: "GetBackgroundColor", 30: "SetBackgroundColor", 31: "GetCursorPosition",
    32: "SetCursorPosition", 33: "GetWindowPosition", 34: "SetWindowPosition", 35: "GetCursorSize", 36: "SetCursorSize", 37: "GetBufferSize",
    38: "SetBufferSize", 39: "GetWindowSize", 40: "SetWindowSize", 41: "GetWindowTitle", 42: "SetWindowTitle", 43: "GetMaxWindowSize",
    44: "GetMaxPhysicalWindowSize", 45: "GetKeyAvailable", 46: "ReadKey", 47: "FlushInputBuffer", 48: "SetBufferContents1",
    49: "SetBufferContents2", 50: "GetBufferContents", 51: "ScrollBufferContents",
}  # MS-PSRP 2.2.3.17
VALUED = {1, 2, 3, 4, 5, 11, 12, 23, 24, 25, 26, 27, 29, 31, 33, 35, 37, 39, 41, 43, 44, 45, 46, 50}
SETS = {28: ("Color", 27), 30: ("Color", 29), 32: ("Pos", 31), 34: ("Pos", 33), 36: ("Int", 35), 38: ("Size", 37), 40: ("Size", 39), 42: ("Str", 41)}


# ---- generation -----------------------------------------------------------------------------------


def gen_free(rng: random.Random, pool_level: bool) -> t.List:
    """A call with any arguments on a host that records everything; the answer it gives (None: no value)."""
    mi = rng.choice(list(NAMES))
    args = [values.tree(rng, 1) for _ in range(rng.choice([0, 1, 2, 4]))]
    for a in args[1:]:
        # an object without type names after a plain value is handed over as XML text (see WriteProgress)
        if args[0][0] != "Obj" and a[0] == "Obj" and not a[1].get("tn"):
            a[1]["tn"] = ["System.Management.Automation.PSCustomObject", "System.Object"]
    if mi == 20:
        args = [["I64", rng.randint(0, 2**40)], cx.obj(ms=[("Activity", cx.S(values.text(rng))), ("PercentComplete", cx.I32(rng.randint(-1, 100)))])]
    ans = None
    if mi in VALUED:
        ans = values.spec(rng, 2, rng.choice([0, 0, 0, 6000, 40000]))
        while ans["k"] == "again" or ans == {"k": "none"}:
            ans = rng.choice([{"k": "str", "v": ""}, {"k": "int", "v": 0}, {"k": "bool", "v": False}, {"k": "list", "v": []}])
        if not pool_level and rng.random() < 0.08:
            ans = {"k": rng.choice(["nested", "exchange"]), "v": ans}
    return ["host", mi, NAMES[mi], args, ans is not None and (pool_level or rng.random() < 0.8), ans]


def pos(x: int, y: int, kind: str) -> cx.Tree:
    a, b = ("x", "y") if kind == "Pos" else ("width", "height")
    return cx.obj(ms=[(a, cx.I32(x)), (b, cx.I32(y))])


def gen_default(rng: random.Random) -> t.List:
    """A call on the library's own host classes."""
    r = rng.random()
    if r < 0.35:
        mi = rng.choice(list(SETS))
        kind = SETS[mi][0]
        if kind in ("Color", "Int"):
            arg: cx.Tree = cx.I32(rng.choice([0, rng.randint(0, 15 if kind == "Color" else 100)]))
        elif kind == "Str":
            arg = cx.S(values.text(rng))
        else:
            arg = pos(rng.randint(-3, 999), rng.randint(0, 999), kind)
        return ["host", mi, NAMES[mi], [arg], False]
    if r < 0.75:
        mi = rng.choice([1, 2, 3, 27, 29, 31, 33, 35, 37, 39, 41, 43, 44, 45])
        return ["host", mi, NAMES[mi], [], True]
    if r < 0.8:
        return ["host", 6, NAMES[6], [cx.I32(rng.choice([0, 1, -1, 255, 2**31 - 1]))], False]
    mi = rng.choice([13, 14, 15, 16, 17, 18, 19, 21, 22])
    s = values.text(rng)
    args = [cx.S(s)]
    if mi in (14, 17):
        args = [cx.I32(1), cx.I32(2), cx.S(s)]
    elif mi == 15:
        args = []
    return ["host", mi, NAMES[mi], args, False]


class Model:
    """What the library's own host holds after the calls made so far."""

    def __init__(self, init: t.Dict) -> None:
        self.state = dict(init)
        self.out: t.List[str] = []
        self.err: t.List[str] = []
        self.rc: t.Any = None

    def step(self, mi: int, args: t.List[cx.Tree]) -> t.Any:
        """The answer to a call: [kind, value], or None."""
        if str(mi) in self.state:
            return self.state[str(mi)]
        s = args[-1][1] if args else ""
        if mi in SETS:
            kind, get = SETS[mi]
            v = s if kind in ("Color", "Int", "Str") else [cx.prim(x) for _, x in args[0][1]["ms"]]
            self.state[str(get)] = [kind, v]
        elif mi == 6:
            self.rc = s
        elif mi in (13, 14):
            self.out.append(s)
        elif mi in (15, 16, 17):
            self.out.append(s + "\r\n")
        elif mi == 18:
            self.err.append(s + "\r\n")
        elif mi in (19, 21, 22):
            self.out.append("%s: %s\r\n" % ({19: "DEBUG", 21: "VERBOSE", 22: "WARNING"}[mi], s))
        return None


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    srv["by_name"] = True
    default = rng.random() < 0.25
    nohost = not default and rng.random() < 0.08
    n = 1 if default else rng.choice([1, 1, 2, 3])
    state: t.Dict[str, t.Any] = {}
    if default:
        state = {
            "1": ["Str", values.text(rng)], "2": ["Version", "%d.%d" % (rng.randint(0, 9), rng.randint(0, 99))], "3": ["Id", None],
            "27": ["Color", rng.randint(0, 15)], "29": ["Color", rng.randint(0, 15)], "31": ["Pos", [rng.randint(0, 9), 1]], "33": ["Pos", [2, rng.randint(0, 9)]],
            "35": ["Int", rng.randint(0, 100)], "37": ["Size", [80, rng.randint(1, 99)]], "39": ["Size", [rng.randint(1, 99), 25]], "41": ["Str", values.text(rng)],
            "43": ["Size", [100, 101]], "44": ["Size", [200, 201]], "45": ["Bool", False],
        }  # fmt: skip
    plans: t.List[t.List] = []
    for _ in range(n):
        plan: t.List = []
        for _ in range(rng.randint(8, 40) if default else rng.randint(1, 9)):
            r = rng.random()
            if r < 0.6:
                st = gen_default(rng) if default else gen_free(rng, False)
                if nohost:
                    st[4] = False
                plan.append(st)
            elif r < 0.68 and n == 1 and not default:  # calls of several pipelines for the pool have no order
                plan.append(["pool", gen_free(rng, True), rng.choice(["pipe", "pool"])])
            elif r < 0.85:
                plan.append(["out", values.tree(rng, 1)])
            elif r < 0.92:
                plan.append(fw.gen_record(rng))
            else:
                plan.append(["sleep", rng.choice([0.05, 3.0, 25.0])])
        plan.append(["end", rng.choice(["Completed", "Completed", "Failed", "Stopped"])])
        plans.append(plan)
    plans.append([["out", ["S", "nested"]], ["end", "Completed"]])
    srv["plans"] = plans
    fl: t.List = []
    if rng.random() < 0.35:
        fl = c.receive_faults(rng, rng.choice([1, 2]), ws.get("read_timeout", 30))
    srv_fl: t.Optional[t.Dict] = None
    if rng.random() < 0.15:
        srv_fl = {"on": "Send", "n": rng.randint(1, 3), "times": 1, "kind": rng.choice(["http_err", "rst_before", "drop_resp", "fault"]), "status": 500, "body": "x", "ctype": "text/plain", "args": {"code": 5, "reason": "no"}}
    return {
        "net": fw.gen_net(rng), "srv": srv, "ws": ws, "n": n, "host": "default" if default else "none" if nohost else "free", "init": state,
        "order": [rng.randrange(8) for _ in range(rng.choice([0, 20, 60]))], "recv_faults": fl, "send_fault": srv_fl, "input": rng.random() < 0.2, "conc": rng.random() < 0.6, "meth": rng.choice(["call", "run_method"]),
    }  # fmt: skip


# ---- hosts ----------------------------------------------------------------------------------------


def free_host(log: t.List, give: t.Callable, via: str) -> t.Any:
    from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface

    def method(name: str) -> t.Callable:
        def f(self: t.Any, runspace: t.Any, pipeline: t.Any, *args: t.Any) -> t.Any:
            log.append((name, runspace, pipeline, list(args), type(self)))
            return give(name, runspace, pipeline)

        return f

    def sub(base: type, lo: int, hi: int) -> type:
        return type("My" + base.__name__, (base,), {NAMES[i]: method(NAMES[i]) for i in range(lo, hi)})

    from pypsrp.complex_objects import Color, Coordinates, Size

    raw = sub(PSHostRawUserInterface, 27, 52)("t", 1, Color(value=0), Color(value=1), Coordinates(x=0, y=0), Coordinates(x=0, y=0), *[Size(width=1, height=1) for _ in range(4)])
    ui = sub(PSHostUserInterface, 11, 27)(raw)
    host = sub(PSHost, 1, 11)(None, None, False, "h", None, ui, "1.0")
    return host


def default_host(init: t.Dict) -> t.Any:
    from pypsrp.complex_objects import Color, Coordinates, CultureInfo, Size
    from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface

    def size(k: str) -> t.Any:
        return Size(width=init[k][1][0], height=init[k][1][1])

    raw = PSHostRawUserInterface(
        init["41"][1], init["35"][1], Color(value=init["27"][1]), Color(value=init["29"][1]), Coordinates(x=init["31"][1][0], y=init["31"][1][1]),
        Coordinates(x=init["33"][1][0], y=init["33"][1][1]), size("37"), size("44"), size("43"), size("39"),
    )  # fmt: skip
    return PSHost(CultureInfo(), CultureInfo(), False, init["1"][1], None, PSHostUserInterface(raw), init["2"][1])


# ---- judging --------------------------------------------------------------------------------------


def inner(v: cx.Tree) -> cx.Tree:
    for k, x in (v[1].get("ms") or []) if v[0] == "Obj" else []:
        if k == "V":
            return x
    return v


def field(v: cx.Tree, *names: str) -> t.Any:
    v = inner(v)
    if v[0] != "Obj":
        return None
    for sec in ("ms", "props"):
        for k, x in v[1].get(sec) or []:
            if k.lower() in names:
                return cx.prim(x)
    return None


def state_diff(want: t.List, v: cx.Tree, host: t.Any) -> t.Optional[str]:
    kind, exp = want
    got: t.Any
    if kind == "Id":
        ok = v[0] == "G" and uuid.UUID(v[1]) == uuid.UUID(str(host.instance_id))
        return None if ok else "instance id %r, not %s" % (v, host.instance_id)
    if kind == "Bool":
        got = v[1] if v[0] == "B" else None
    elif kind == "Str":
        got = v[1] if v[0] == "S" else None
    elif kind == "Version":
        got = v[1] if v[0] == "Version" else None
    elif kind == "Int":
        got = v[1] if v[0] == "I32" else None
    elif kind == "Color":
        x = inner(v)
        got = x[1]["prim"][1] if x[0] == "Obj" and x[1].get("prim") else x[1]
    elif kind == "Pos":
        got = [field(v, "x"), field(v, "y")]
    else:
        got = [field(v, "width"), field(v, "height")]
    return None if got == exp else "%s %r answered as %.300r" % (kind, exp, v)


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    log: t.List = []
    pss: t.List[t.Any] = []
    nested: t.List[t.Any] = []
    seen: t.Dict[t.Any, int] = {}
    plans = sc["srv"].get("plans", [])
    model = Model(sc.get("init", {}))
    answers: t.List[t.List] = []
    for pl in plans[: sc.get("n", 1)]:
        calls = [st for st in pl if st[0] == "host"]
        answers.append([model.step(st[1], st[3]) if sc.get("host") == "default" else st[5] for st in calls])
    pool_answers = [st[1][5] for pl in plans for st in pl if st[0] == "pool"]

    def give(name: str, runspace: t.Any, pipeline: t.Any) -> t.Any:
        k = pss.index(pipeline) if pipeline in pss else None
        i = seen.get(k, 0)
        seen[k] = i + 1
        lst = pool_answers if k is None else answers[k] if k < len(answers) else []
        a = lst[i] if i < len(lst) else None
        if a is None:
            return None
        if a["k"] == "exchange":
            runspace.session_key_timeout_ms = 10**8  # how long it may take is for P13 to judge, lost answers count here
            runspace.exchange_keys()
            a = a["v"]
        elif a["k"] == "nested":
            ps = PowerShell(runspace)
            ps.add_script("run %d" % sc["n"])
            nested.append(ps)
            ps.invoke()
            a = a["v"]
        return values.build(a)

    kind = sc.get("host", "free")
    host = free_host(log, give, sc.get("meth", "call")) if kind == "free" else default_host(sc["init"]) if kind == "default" else None
    w = run.wsman()
    pool = RunspacePool(w, host=host, max_runspaces=3)
    if not run.must(run.call(pool.open), "open", "opening a pool"):
        return
    srv = h.all_shells[0].pool
    for f in sc.get("recv_faults", []):
        h.arm(dict(f))
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    sf = sc.get("send_fault")
    n = sc.get("n", 1)
    live: t.List[t.Any] = []
    doomed: t.List[t.Any] = []
    for i in range(n):
        ps = PowerShell(pool)
        ps.add_script("run %d" % i)
        pss.append(ps)
        if not run.must(run.call(ps.begin_invoke, [1, "two"] if sc.get("input") else None), "begin", "starting a pipeline"):
            return
        if sc.get("conc"):
            live.append(ps)
        elif not go(run, ps, None):
            return
    if sf and live:
        run.settle(0.5)
        armed = h.arm(dict(sf))
    for k in sc.get("order", []):
        if not live:
            break
        ps = live[k % len(live)]
        if ps.state == 1:
            del fired[:]
            r = run.call(ps.poll_invoke)
            if not r.ok:
                if not run.check(any(f["on"] == "Send" for f in fired), "poll", "polling %s" % r):
                    return
                doomed.append(ps)
                live.remove(ps)
        else:
            live.remove(ps)
    if sf and sc.get("conc"):
        armed["used"] = True
    for ps in live:
        if not go(run, ps, None):
            return
    if doomed:
        run.cover["doomed"] += 1
        # what came with a response whose handling failed may be lost, but nothing runs twice
        for k, ps in enumerate(pss):
            p = c.pipe_of(h, ps)
            mine = [x for x in log if x[2] is ps]
            lim = p.host_calls if p else []
            if ps in doomed:
                if not run.check([x[0] for x in mine] == [NAMES[x["mi"]] for x in lim][: len(mine)] and all(len(x["answers"]) <= 1 for x in lim), "once", "pipeline %d called %r, the host ran %r" % (k, [NAMES[x["mi"]] for x in lim], [x[0] for x in mine])):
                    return
            elif not judge(run, h, srv, pool, ps, p, mine, answers[k] if k < len(answers) else [], kind, host):
                return
        return
    if not run.must(run.call(pool.get_available_runspaces), "flush", "asking for the available runspaces"):
        return
    for k, ps in enumerate(pss):
        p = c.pipe_of(h, ps)
        if not judge(run, h, srv, pool, ps, p, [x for x in log if x[2] is ps], answers[k] if k < len(answers) else [], kind, host):
            return
        if not c.check_pipe(run, p, ps, "output"):
            return
    for ps in nested:
        if not run.check(ps.output == ["nested"], "nested", "a pipeline run inside a host call gave %.100r" % (ps.output,)):
            return
    want = [x for x in srv.host_calls if x["where"] == "pool"]
    if want and kind == "free":
        # a call put into a pipeline's responses and one in the pool's own keep their order only within their stream
        mine = [x for x in log if x[2] is None]
        if not run.check(sorted(x[0] for x in mine) == sorted(NAMES[x["mi"]] for x in want), "pool", "pool host calls %r, dispatched %r" % ([NAMES[x["mi"]] for x in want], [x[0] for x in mine])):
            return
        left = list(want)
        for j, (name, rs, pl, args, cls) in enumerate(mine):
            a = pool_answers[j] if j < len(pool_answers) else None
            hit = None
            for x in left:
                if NAMES[x["mi"]] == name and not args_diff(x["args"], args):
                    exp = 0 if a is None else 1
                    if len(x["answers"]) == exp and (not exp or answer_diff(x, x["answers"][0], a, None) is None):
                        hit = x
                        break
            if not run.check(hit is not None and rs is pool, "pool", "pool host call %s ran with %.200r and answer %.100r; the server asked for %.400r" % (name, args, a, [(NAMES[x["mi"]], x["args"], x["answers"]) for x in left])):
                return
            left.remove(hit)
        run.cover["pool_calls"] += len(want)
    if kind == "default":
        if not run.check(host.ui.stdout == model.out and host.ui.stderr == model.err, "ui", "host wrote %.300r / %.300r, the server asked for %.300r / %.300r" % (host.ui.stdout, host.ui.stderr, model.out, model.err)):
            return
        if not run.check(host.rc == model.rc, "ui", "exit code %r, the server set %r" % (host.rc, model.rc)):
            return
    run.must(run.call(pool.close), "close", "closing")
    run.problems("refused")


def go(run: fw.Run, ps: t.Any, sf: t.Any) -> bool:
    return run.must(run.call(ps.end_invoke), "run", "waiting for a pipeline")


def args_diff(exp: t.List[cx.Tree], got: t.List) -> t.Optional[str]:
    if len(exp) == len(got):
        for a, b in zip(exp[1:], got[1:]):
            if a[0] == "Obj" and not a[1].get("tn") and exp[0][0] != "Obj" and isinstance(b, str):
                x = cx.decode(b.encode())
                x[1].pop("label", None)
                if x != a and [dict(x[1].get(k) or []) for k in ("ms", "props")] != [dict(a[1].get(k) or []) for k in ("ms", "props")]:
                    return "record %.200r arrived as %.200r" % (a, b)
                return c.compare_output(exp[:1], got[:1], "arguments")
    return c.compare_output(exp, got, "arguments")


def answer_diff(call: t.Dict, rec: t.Dict, a: t.Any, host: t.Any) -> t.Optional[str]:
    want = "PIPELINE_HOST_RESPONSE" if call["where"] == "pipe" else "RUNSPACEPOOL_HOST_RESPONSE"
    if rec["type"] != want:
        return "answered as %s" % rec["type"]
    if rec["ci"] != call["ci"]:
        return "answered with call id %r, not %r" % (rec["ci"], call["ci"])
    mi = rec["mi"]
    num = cx.prim(mi[1]["prim"]) if mi[0] == "Obj" and mi[1].get("prim") else mi[1]
    if num != call["mi"]:
        return "answered with method id %r, not %r" % (mi, call["mi"])
    if rec["pid"] != (call["pid"] or "00000000-0000-0000-0000-000000000000"):
        return "answered for pipeline %s, not %s" % (rec["pid"], call["pid"])
    if isinstance(a, list):
        return state_diff(a, rec["mr"], host)
    if a["k"] in ("nested", "exchange"):
        a = a["v"]
    return values.spec_diff(a, rec["mr"])


def judge(run: fw.Run, h: t.Any, srv: t.Any, pool: t.Any, ps: t.Any, p: t.Any, mine: t.List, answers: t.List, kind: str, host: t.Any) -> bool:
    if not run.check(p is not None, "run", "a pipeline never reached the server"):
        return False
    calls = p.host_calls
    if kind == "free":
        if not run.check([x[0] for x in mine] == [NAMES[x["mi"]] for x in calls], "dispatch", "the server called %r, the host ran %r" % ([NAMES[x["mi"]] for x in calls], [x[0] for x in mine])):
            return False
        for j, (x, (name, rs, pl, args, cls)) in enumerate(zip(calls, mine)):
            d = args_diff(x["args"], args)
            if not run.check(not d, "args", "host call %d (%s): %s" % (j, name, d)):
                return False
            want = "MyPSHost" if x["mi"] < 11 else "MyPSHostUserInterface" if x["mi"] < 27 else "MyPSHostRawUserInterface"
            if not run.check(rs is pool and cls.__name__ == want, "target", "host call %s went to %s with pool %s" % (name, cls.__name__, rs)):
                return False
    for j, x in enumerate(calls):
        a = answers[j] if j < len(answers) and kind != "none" else None
        exp = 0 if a is None else 1
        if not run.check(len(x["answers"]) == exp, "answers", "host call %d (%s) was answered %d times, expected %d" % (j, NAMES[x["mi"]], len(x["answers"]), exp)):
            return False
        if exp:
            d = answer_diff(x, x["answers"][0], a, host)
            if not run.check(not d, "answer", "host call %d (%s): %s" % (j, NAMES[x["mi"]], d)):
                return False
            run.cover["answers:" + kind] += 1
    run.cover["calls:" + kind] += len(calls)
    # answers arrive in the order of the calls
    order = [x["answers"][0] for x in calls if x["answers"]]
    idx = [srv.answers.index(r) for r in order]
    return run.check(idx == sorted(idx), "order", "answers arrived out of order: %r" % idx)
