"""P24: execute_cmd and execute_ps return the full result and always clean up."""
from __future__ import annotations

import random
import typing as t

from .. import clixml as cx
from .. import fw, values, wire
from . import build as b
from . import common as c

RUNS = {"quick": 2000, "thorough": 90000}
CODECS = {
    "437": "abcXYZ 019\r\n\t\xe9\xfc\xdf\u2502\u2588",
    "cp850": "abc \r\n\xe9\xd0\xf8",
    "utf-8": "abc \r\n\xe9\u4e2d\U0001f600\ufeff\u2028\x00",
    "utf-16-le": "ab\r\n\u4e2d\U0001f600\xff",
    "cp1252": "abc\r\n\u20ac\xe9\u2122",
    "shift_jis": "ab\r\n\u65e5\u672c\u30bd\u8868",
    "latin-1": "ab\r\n\xe9\xff\x00\x80",
}
XML = "ab \"'<>&;%^$\xe9\u4e2d\U0001f600_x0041_"  # a command line and its environment travel as plain XML text
LOSS = ("drop_req", "drop_resp", "rst_before", "rst_after", "fin_before", "fin_after", "trunc_resp", "close_after", "dead_after")
KINDS = LOSS + ("http_err", "fault", "fault", "garbage_200", "bad_relates", "delay_resp")


def chunks(rng: random.Random, data: bytes) -> t.List[bytes]:
    out = []
    while data:
        n = rng.choice([1, 1, 2, 3, 7, 50, 4000])
        out.append(data[:n])
        data = data[n:]
        if len(out) > 60:
            out.append(data)
            break
    return out


def text(rng: random.Random, codec: str, n: int) -> str:
    return "".join(rng.choice(CODECS[codec]) for _ in range(n))


def clixml(rng: random.Random, lines: t.List[str]) -> str:
    """What powershell.exe writes to its error stream, as text."""
    other = [
        '<Obj S="progress" RefId="0"><TN RefId="0"><T>System.Management.Automation.PSCustomObject</T><T>System.Object</T></TN><MS><I64 N="SourceId">1</I64><PR N="Record"><AV>Preparing modules for first use.</AV><AI>0</AI><Nil /><PI>-1</PI><PC>-1</PC><T>Completed</T><SR>-1</SR><SD> </SD></PR></MS></Obj>',
        '<S S="verbose">chatty</S>',
        '<S S="warning">careful</S>',
    ]
    parts = []
    for x in lines:
        if rng.random() < 0.3:
            parts.append(rng.choice(other))
        parts.append('<S S="Error">%s</S>' % cx.esc(x))
    if rng.random() < 0.3:
        parts.append(rng.choice(other))
    return '#< CLIXML\r\n<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04">%s</Objs>' % "".join(parts)


def gen_cmd(rng: random.Random) -> t.Dict:
    codec = rng.choice(["437", "437", "utf-8", "utf-8", "utf-16-le", "cp1252", "shift_jis", "latin-1", "cp850"])
    steps: t.List = []
    for name in rng.choice([["stdout"], ["stdout", "stderr"], ["stderr"], []]):
        s = text(rng, codec, rng.choice([0, 1, 5, 40, 40, 3000]))
        for x in chunks(rng, s.encode(codec)):
            steps.append([rng.choice(["out", "out", "out_sep"]), name, x.hex()])
    if len({s[1] for s in steps}) == 2:
        # the two streams come mixed, each in its own order
        o = [s for s in steps if s[1] == "stdout"]
        e = [s for s in steps if s[1] == "stderr"]
        steps = []
        while o or e:
            q = o if o and (not e or rng.random() < 0.5) else e
            steps.append(q.pop(0))
    for _ in range(rng.choice([0, 0, 1, 3])):
        steps.insert(rng.randint(0, len(steps)), ["sleep", rng.choice([0.05, 2.0, 18.0, 31.0, 75.0])])
    if rng.random() < 0.04:
        steps.insert(rng.randint(0, len(steps)), ["out", "stdout", "c328ff"])
    lines: t.Optional[t.List[str]] = None
    if rng.random() < 0.15:
        codec = "utf-8"
        lines = [values.text(rng) + "\r\n" for _ in range(rng.randint(0, 3))]
        steps = [["out", "stderr", x.hex()] for x in chunks(rng, clixml(rng, lines).encode())]
    steps.append(["end", rng.choice([0, 0, 1, 2, 255, -1, -2147483648, 4294967295, None, rng.randint(-1000, 1000)])])
    d: t.Dict[str, t.Any] = {"op": "cmd", "text": rng.choice(["exe", "dir c:\\ & echo \"x\" <&1>", "".join(rng.choice(XML) for _ in range(9)).strip()]) or "x", "codec": codec, "plan": steps}
    if lines is not None:
        d["errors"] = lines
    if codec == "437" and rng.random() < 0.6:
        d["default"] = True
    return d


def gen_ps(rng: random.Random) -> t.Dict:
    plan: t.List = []
    for _ in range(rng.choice([0, 1, 3, 10])):
        r = rng.random()
        if r < 0.6:
            plan.append(["out", ["S", values.text(rng, 3000 if rng.random() < 0.1 else 0)]])
        elif r < 0.85:
            plan.append(fw.gen_record(rng, 0))
        else:
            plan.append(["sleep", rng.choice([0.05, 3.0, 25.0, 70.0])])
    e = rng.choice(["Completed", "Completed", "Failed", "Stopped"])
    plan.append(["end", e] + ([wire.error_record(values.text(rng))] if e != "Completed" and rng.random() < 0.6 else []))
    return {"op": "ps", "text": values.text(rng), "plan": plan, "config": rng.choice([None, None, "Microsoft.PowerShell", "My-Config"])}


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    if rng.random() < 0.08:
        srv["pool"].setdefault("open", {})["broken"] = "no"
    calls = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        d = gen_cmd(rng) if rng.random() < 0.5 else gen_ps(rng)
        if rng.random() < 0.5:
            d["env"] = [[("K%d" % i) + rng.choice(["", "_\xe9", " x", "=;"]), rng.choice(["", values.text(rng) if d["op"] == "ps" else "".join(rng.choice(XML) for _ in range(rng.randint(1, 8))), "v"])] for i in rng.sample(range(9), rng.randint(0, 4))]
        if rng.random() < 0.45:
            on = rng.choice(["Create", "Receive", "Receive", "Command", "Command", "Delete"] + (["Signal"] if d["op"] == "cmd" else []))
            kind = rng.choice(KINDS)
            f: t.Dict[str, t.Any] = {"on": on, "n": rng.choice([1, 1, 2, 3]) if on == "Receive" else 1, "kind": kind, "times": rng.choice([1, 1, 3, 8]) if kind in ("drop_req", "drop_resp", "delay_resp") and on == "Receive" else 1}
            if kind == "trunc_resp":
                f.update(frac=rng.choice([0.001, 0.3, 0.99]), how=rng.choice(["fin", "rst", "dead"]))
            elif kind == "http_err":
                f.update(status=rng.choice([500, 503, 404, 400, 502]), body=rng.choice(["", "busy"]), ctype="text/plain")
            elif kind == "fault":
                f["args"] = {"code": rng.choice([5, 2150858843, 2150859113, 995]), "reason": "no"}
            elif kind == "garbage_200":
                f.update(body=rng.choice(["", "<a/>", "no xml", "<s:Envelope"]), status=200)
            elif kind == "delay_resp":
                f["secs"] = rng.choice([0.5, 500.0])
            d["faults"] = [f]
        calls.append(d)
    return {"net": fw.gen_net(rng), "srv": srv, "ws": fw.gen_ws(rng), "calls": calls, "end": rng.choice(["close", "with", "none"])}


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    cl = run.client()
    if sc.get("end") == "with":
        cl.__enter__()
    stale = False  # the connection a call left behind is no longer usable
    for i, d in enumerate(sc["calls"]):
        n0 = sum(run.sim.fired.get(k, 0) for k in LOSS + ("delay_resp",))
        if not one(run, h, cl, d, i, stale):
            return
        stale = sum(run.sim.fired.get(k, 0) for k in LOSS + ("delay_resp",)) > n0
    if sc.get("end") in ("close", "with"):
        if sc["end"] == "with":
            run.must(run.call(cl.__exit__, None, None, None), "close", "leaving the client's with statement")
        else:
            run.must(run.call(cl.close), "close", "closing the client")
    if not run.sim.fired:
        run.problems("refused")


def one(run: fw.Run, h: t.Any, cl: t.Any, d: t.Dict, i: int, stale: bool) -> bool:
    cmd = d["op"] == "cmd"
    what = "call %d, execute_%s," % (i, d["op"])
    h.procs = [d["plan"]] if cmd else []
    h.plans = [d["plan"]] if not cmd else []
    env = dict((k, v) for k, v in d.get("env", []))
    kw: t.Dict[str, t.Any] = {}
    if env:
        kw["environment"] = env
    if cmd and not d.get("default"):
        kw["encoding"] = d["codec"]
    if not cmd and d.get("config"):
        kw["configuration_name"] = d["config"]
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    armed = [h.arm(f) for f in d.get("faults", [])]
    n0 = len(h.all_shells)
    r = run.call(cl.execute_cmd if cmd else cl.execute_ps, d["text"], **kw)
    for f in armed:
        f["used"] = True
    new = h.all_shells[n0:]
    broken = not cmd and h.cfg.get("pool", {}).get("open", {}).get("broken")
    if not run.check(len(new) <= 1, "shells", "%s created %d shells" % (what, len(new))):
        return False
    if fired:
        run.cover["faulted:%s:%s" % (d["op"], fired[0]["on"])] += 1
    run.cover[("ok:" if r.ok else "raised:") + d["op"]] += 1
    # -- the shell is gone, whatever happened, unless its very creation or deletion was hit
    run.settle(1.0)
    hit = {f["on"] for f in fired}
    loss = any(f["kind"] in LOSS or f["kind"] == "delay_resp" for f in fired)
    excused = bool(hit & {"Create", "Delete"}) or (loss or stale) and h.cfg.get("encrypt") or any(f["kind"] in ("dead_after", "close_after") for f in fired)
    left = [s for s in new if s.id in h.shells]
    if not excused and not run.check(not left, "left", "%s %s and left its shell on the server" % (what, "returned" if r.ok else str(r))):
        return False
    if not r.ok:
        undecodable = isinstance(r.exc, UnicodeDecodeError) and cmd and any("c328ff" in s for s in d["plan"])
        if not run.check(fired or broken or undecodable or stale, "raised", "%s %s with nothing wrong on the server" % (what, r)):
            return False
        return run.check(not undecodable or new, "raised", "%s did not run" % what)
    if broken:
        return run.check(False, "broken", "%s returned although the pool broke while it was opened" % what)
    if not run.check(len(new) == 1, "shells", "%s returned and created no shell" % what):
        return False
    sh = new[0]
    if not run.check(len(sh.all_commands) == 1, "runs", "%s ran %d commands" % (what, len(sh.all_commands))):
        return False
    p = sh.all_commands[0]
    if cmd:
        return cmd_result(run, d, env, sh, p, r, what)
    return ps_result(run, h, d, env, sh, p, r, what)


def cmd_result(run: fw.Run, d: t.Dict, env: t.Dict, sh: t.Any, p: t.Any, r: fw.Res, what: str) -> bool:
    ok = run.check(isinstance(r.value, tuple) and len(r.value) == 3, "result", "%s returned %.100r" % (what, r.value))
    if not ok:
        return False
    run.check(p.ended, "early", "%s returned before the process ended" % what)
    for name, got, raw in (("stdout", r.value[0], p.stdout), ("stderr", r.value[1], p.stderr)):
        try:
            want: t.Optional[str] = raw.decode(d["codec"])
        except UnicodeDecodeError:
            want = None
        if not run.check(want is None or got == want, "result", "%s %s is %.150r, the process wrote %.150r in %s" % (what, name, got, raw, d["codec"])):
            return False
    want_rc = -1 if p.target.rc is None else p.target.rc
    if not run.check(r.value[2] == want_rc and type(r.value[2]) is int, "result", "%s return code %r, the process ended with %r" % (what, r.value[2], p.target.rc)):
        return False
    if "errors" in d and d["codec"] == "utf-8":
        from pypsrp.client import Client

        x = run.call(Client.sanitise_clixml, r.value[1])
        y = run.call(Client.sanitise_clixml, r.value[0])
        if not run.check(x.ok and x.value == "".join(d["errors"]), "clixml", "%s error text %.200r came out as %.200r" % (what, d["errors"], x.value if x.ok else x)):
            return False
        if not run.check(y.ok and y.value == r.value[0], "clixml", "text that is no CLIXML was changed to %.100r" % (y,)):
            return False
        run.cover["clixml_errors"] += 1
    if not run.check(p.cmd == d["text"] and p.args == [], "command", "%s ran %.150r %r" % (what, p.cmd, p.args)):
        return False
    return run.check(sh.env == list(env.items()), "env", "%s environment %.150r arrived as %.150r" % (what, list(env.items()), sh.env))


def ps_result(run: fw.Run, h: t.Any, d: t.Dict, env: t.Dict, sh: t.Any, p: t.Any, r: fw.Res, what: str) -> bool:
    if not run.check(isinstance(r.value, tuple) and len(r.value) == 3, "result", "%s returned %.100r" % (what, r.value)):
        return False
    out, streams, had = r.value
    if not run.check(p.state not in ("NotStarted", "Running"), "early", "%s returned although the pipeline is %s" % (what, p.state)):
        return False
    want = "\n".join(x[1] for k, x in p.sent if k == "output")
    if not run.check(out == want, "result", "%s output %.150r, the script wrote %.150r" % (what, out, want)):
        return False

    class Shim:
        pass

    shim = Shim()
    shim.output = [x[1] for k, x in p.sent if k == "output"]  # type: ignore[attr-defined]
    shim.streams = streams  # type: ignore[attr-defined]
    diff = c.compare_streams(p, shim)
    if diff:
        run.bad("result", "%s %s" % (what, diff))
        return False
    if not run.check(had == (p.state == "Failed"), "result", "%s had_errors %r for a %s pipeline" % (what, had, p.state)):
        return False
    m = b.Model(h.cfg.get("proto") or "2.3")
    for k, v in env.items():
        m.apply(["cmdlet", "New-Item", None])
        for n, x in (("Path", {"k": "str", "v": "env:"}), ("Name", {"k": "str", "v": k}), ("Value", {"k": "str", "v": v}), ("Force", {"k": "bool", "v": True})):
            m.apply(["param", n, x])
        m.apply(["cmdlet", "Out-Null", None])
        m.apply(["stmt"])
    m.apply(["cmdlet", "Invoke-Expression", None])
    m.apply(["param", "Command", {"k": "str", "v": d["text"]}])
    m.apply(["cmdlet", "Out-String", None])
    m.apply(["param", "Stream", None])
    diff = b.pipe_diff(m, b.prop(p.create, "PowerShell"), {})
    if diff:
        run.bad("command", "%s pipeline: %s" % (what, diff))
        return False
    conf = d.get("config") or "Microsoft.PowerShell"
    return run.check(sh.uri.rsplit("/", 1)[-1] == conf, "config", "%s ran in %s, asked for %s" % (what, sh.uri, conf))
