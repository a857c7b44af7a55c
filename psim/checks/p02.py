"""P02: remote process stdout, stderr, exit code and input are reproduced exactly."""
from __future__ import annotations

import random
import typing as t

from .. import fw
from . import common as c

RUNS = {"quick": 3000, "thorough": 200000}
ARG = "abc XYZ \"'<>&;%^$\u00e9\u4e2d\U0001f600_x0041_ "


def gen_bytes(rng: random.Random, big: int) -> str:
    r = rng.random()
    n = 0 if r < 0.08 else rng.randint(1, 12) if r < 0.7 else rng.randint(1, 400) if r < 0.95 else rng.randint(1, big or 400)
    if rng.random() < 0.5:
        return bytes(rng.choice([0, 10, 13, 26, 32, 65, 0xC3, 0xA9, 0xE2, 0xFF]) for _ in range(n)).hex()
    return rng.randbytes(n).hex()


def gen_proc(rng: random.Random, big: int) -> t.Tuple[t.List, t.List]:
    plan: t.List = []
    inputs: t.List = []
    has_input = rng.random() < 0.4
    for _ in range(rng.randint(0, 10)):
        r = rng.random()
        if r < 0.7:
            plan.append([rng.choice(["out", "out", "out_sep"]), rng.choice(["stdout", "stdout", "stderr"]), gen_bytes(rng, big)])
        else:
            plan.append(["sleep", rng.choice([0.05, 2.0, 18.0, 31.0, 75.0])])
    if has_input:
        plan.insert(rng.randint(0, len(plan)), [rng.choice(["wait_input", "echo", "echo"])])
        n = rng.randint(1, 5)
        inputs = [[gen_bytes(rng, min(big, 5000)), i == n - 1] for i in range(n)]
    rc = rng.choice([0, 0, 1, 2, 255, -1, -2147483648, 2147483647, 4294967295, rng.randint(-1000, 1000)])
    if rng.random() < 0.08:
        plan.append(["hang"])
    else:
        plan.append(["end", rc])
    return plan, inputs


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    n = rng.choice([1, 1, 1, 2, 3])
    big = rng.choice([2000, 2000, 60000])
    procs, inputs = [], []
    for _ in range(n):
        p, i = gen_proc(rng, big)
        procs.append(p)
        inputs.append(i)
    srv["procs"] = procs
    ws = fw.gen_ws(rng)
    if rng.random() < 0.3:
        srv["faults"] = c.receive_faults(rng, rng.randint(1, 2), ws.get("read_timeout", 30))
    env = [[("N%d" % i) + rng.choice(["", "_\u00e9", " x"]), "".join(rng.choice(ARG) for _ in range(rng.randint(1, 8)))] for i in range(rng.randint(0, 3))]
    return {
        "net": fw.gen_net(rng),
        "srv": srv,
        "ws": ws,
        "inputs": inputs,
        "args": [["".join(rng.choice(ARG) for _ in range(rng.randint(1, 9))) for _ in range(rng.randint(0, 4))] for _ in range(n)],
        "env": env,
        "no_shell": rng.random() < 0.3,
        "polls": [rng.randrange(8) for _ in range(30)],
        "poll_to": rng.choice([None, None, 1, 7]),
        "modes": [rng.choice(["invoke", "begin", "poll"]) for _ in range(n)],
        "signal": rng.choice(["ctrl_c", "ctrl_c", "terminate"]),
        "code": rng.choice([None, 437, 65001]),
    }


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.shell import Process, SignalCode, WinRS

    h = run.host(sc["srv"])
    w = run.wsman()
    kw: t.Dict[str, t.Any] = {}
    if sc.get("env"):
        kw["environment"] = dict((k, v) for k, v in sc["env"])
    if sc.get("code"):
        kw["codepage"] = sc["code"]
    sh = WinRS(w, **kw)
    if not run.must(run.call(sh.open), "open", "opening a shell"):
        return
    srv_sh = h.all_shells[0]
    run.check(sh.id == srv_sh.id, "id", "shell id %r, the server says %r" % (sh.id, srv_sh.id))
    run.check(srv_sh.env == [(k, v) for k, v in (kw.get("environment") or {}).items()], "env", "environment arrived as %r" % (srv_sh.env,))
    live: t.List[t.Tuple[int, t.Any, str]] = []
    procs: t.List[t.Any] = []
    plans = sc["srv"].get("procs", [])
    for i, plan in enumerate(plans):
        args = sc["args"][i] if i < len(sc.get("args", [])) else []
        p = Process(sh, "exe %d" % i, args, no_shell=bool(sc.get("no_shell")))
        procs.append(p)
        mode = sc["modes"][i] if i < len(sc.get("modes", [])) else "begin"
        inputs = sc["inputs"][i] if i < len(sc.get("inputs", [])) else []
        hangs = ["hang"] in plan or (any(s[0] in ("echo", "wait_input") for s in plan) and not inputs)
        if mode == "invoke" and not inputs and not hangs:
            if not run.must(run.call(p.invoke), "run", "running a process"):
                return
        else:
            if not run.must(run.call(p.begin_invoke), "run", "starting a process"):
                return
            live.append((i, p, "hang" if hangs else mode))
        sp = srv_sh.all_commands[-1]
        run.check(sp.cmd == "exe %d" % i and sp.args == args, "cmdline", "the server got command %r with arguments %r" % (sp.cmd, sp.args))
        run.check(sp.options.get("WINRS_SKIP_CMD_SHELL") == str(bool(sc.get("no_shell"))), "noshell", "skip-shell option %r" % sp.options)
        if run.viol:
            return
    todo = {i: list(sc["inputs"][i]) if i < len(sc.get("inputs", [])) else [] for i, _, _ in live}
    polls = list(sc.get("polls", []))
    active = list(live)
    while active and polls:
        i, p, mode = active[polls.pop(0) % len(active)]
        if todo[i] and polls and polls[0] % 2:
            if not feed(run, p, srv_sh.all_commands[i], todo[i]):
                return
            continue
        if p.state == "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/Done":
            active = [a for a in active if a[1] is not p]
            continue
        if not run.must(run.call(p.poll_invoke, timeout=sc.get("poll_to")), "poll", "polling a process"):
            return
        sp = srv_sh.all_commands[i]
        if not run.check(sp.stdout.startswith(p.stdout) and sp.stderr.startswith(p.stderr), "prefix", "process %d: output read so far is not a prefix of what it wrote" % i):
            return
    for i, p, mode in live:
        while todo[i]:
            if not feed(run, p, srv_sh.all_commands[i], todo[i]):
                return
        if mode == "hang":
            sig = SignalCode.CTRL_C
            if not run.must(run.call(p.signal, sig), "signal", "signalling a process"):
                return
        if not run.must(run.call(p.end_invoke), "run", "waiting for a process"):
            return
    for i, p in enumerate(procs):
        sp = srv_sh.all_commands[i]
        if not run.check(sp.ended, "early", "waiting returned although process %d is still running" % i):
            return
        run.check(p.stdout == sp.stdout, "data", "process %d: stdout %.120r, it wrote %.120r" % (i, p.stdout, sp.stdout))
        run.check(p.stderr == sp.stderr, "data", "process %d: stderr %.120r, it wrote %.120r" % (i, p.stderr, sp.stderr))
        run.check(p.rc == sp.target.rc, "rc", "process %d: return code %r, it ended with %r" % (i, p.rc, sp.target.rc))
        inputs = sc["inputs"][i] if i < len(sc.get("inputs", [])) else []
        want = b"".join(bytes.fromhex(d) for d, _ in inputs)
        run.check(sp.input == want and sp.input_ended == sum(1 for _, e in inputs if e), "input", "process %d: the server got input %.120r ended %d times" % (i, sp.input, sp.input_ended))
        ins = [s for s in sp.signals if s != SignalCode.CTRL_C or plans[i][-1] != ["hang"]]
        run.cover["processes"] += 1
    run.must(run.call(sh.close), "close", "closing the shell")
    run.check(not h.shells, "left", "the shell is still on the server after close")
    run.problems("refused")


def feed(run: fw.Run, p: t.Any, sp: t.Any, todo: t.List) -> bool:
    data, end = todo.pop(0)
    before, ends = len(sp.input), sp.input_ended
    if not run.must(run.call(p.send, bytes.fromhex(data), end=end), "send", "sending input"):
        return False
    return run.check(sp.input_ended - ends == int(end), "input", "end-of-input signalled %d times by send(end=%r)" % (sp.input_ended - ends, end))
