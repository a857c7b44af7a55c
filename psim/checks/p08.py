"""P08: server faults and HTTP errors surface faithfully, never look like success, and leave the session usable."""
from __future__ import annotations

import random
import typing as t

from .. import fw, server
from . import common as c
from . import session as s

RUNS = {"quick": 2400, "thorough": 150000}

TEXT = ["access denied", "  spaced  ", "", "\n", "a <b> & \"c\" 'd'", "\u00e9\u4e2d\U0001f600", "line1\nline2", "x" * 3000, "]]>", "Code: 5"]
CODES = [0, 1, 5, 87, 995, 2150858770, 2150858843, 2150859173, 2150859001, 2150858793, 2150858999, 4294967295, -2144108453, "w:InternalError", "abc", ""]
BODIES = [
    ("", ""),
    ("plain text", "text/plain"),
    ("<html><body>Bad gateway<br></body>", "text/html"),
    ("<html><body><h1>502</h1></body></html>", "text/html"),
    ("<?xml version=\"1.0\" encoding=\"utf-8\"?><error code=\"7\">gone</error>", "application/xml"),
    ('<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope"><s:Body><x/></s:Body></s:Envelope>', "application/soap+xml;charset=UTF-8"),
    ("{\"error\": 1}", "application/json"),
]
GARBAGE = ["not xml at all", "<html><body>hello</body></html>", "", "<s:Envelope xmlns:s=\"http://www.w3.org/2003/05/soap-envelope\"><s:Header/><s:Body/></s:Envelope>", "<a>", "\x00\x01"]
DEAD = (0x80338029, 0x8033805B)


def gen_fault(rng: random.Random, on: str) -> t.Dict:
    code = rng.choice(CODES) if rng.random() < 0.8 else rng.randrange(2**32)
    if on == "Receive" and rng.random() < 0.3:
        code = server.E_OPTIMEOUT
    if on == "Get" and code in DEAD:
        code = 5
    a: t.Dict[str, t.Any] = {"code": code, "reason": rng.choice(TEXT), "machine": rng.choice(["host", "", "a&b \"q\"", "\u00e9"])}
    a["status"] = rng.choice([500, 500, 500, 400, 403, 404, 413, 503])
    a["subcode"] = rng.choice(["w:InternalError", "w:AccessDenied", "wsman:Concurrency"])
    if rng.random() < 0.3:
        a["provider"] = [rng.choice(["Shell cmd plugin", "a&\"b"]), rng.choice(["%systemroot%\\system32\\winrscmd.dll", ""]), rng.choice(["prov fault", "  p  ", "", "<x/>"])]
    if rng.random() < 0.15:
        a["detail"] = False
    return a


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    srv["by_name"] = True
    srv["pool"].pop("interleave", None)
    kind = rng.choice(["proc", "pool", "pool"])
    ops, plans = s.gen_ops(rng, kind, rng.choice([4, 8, 14]))
    srv["procs" if kind == "proc" else "plans"] = plans
    fl: t.List = []
    for _ in range(rng.choice([1, 2, 4, 6])):
        i = rng.randrange(len(ops))
        on = rng.choice(s.CLASSES[ops[i][0]])
        n = rng.choice([1, 1, 2, 3]) if on == "Receive" or ops[i][0] in ("begin", "invoke") else 1
        r = rng.random()
        f: t.Dict[str, t.Any] = {"on": on, "n": n}
        if r < 0.6:
            f.update(kind="fault", args=gen_fault(rng, on))
        elif r < 0.93:
            body, ctype = rng.choice(BODIES)
            f.update(kind="http_err", status=rng.choice([400, 402, 403, 404, 405, 408, 413, 425, 429, 500, 502, 503, 504, 599]), body=body, ctype=ctype)
            if srv.get("auth", "none") in ("none", "basic") and rng.random() < 0.15:
                f["status"] = 401
        else:
            f.update(kind="garbage_200", body=rng.choice(GARBAGE), status=rng.choice([200, 200, 200, 202]))
        fl.append([i, f])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": fw.gen_ws(rng), "kind": kind, "ops": ops, "op_faults": fl}


def describe(run: fw.Run, what: str, f: t.Dict, r: fw.Res) -> bool:
    """The error the call raised against what the server said."""
    from pypsrp.exceptions import AuthenticationError, WinRMTransportError, WSManFaultError

    e = r.exc
    if f["kind"] == "fault":
        a = f["args"]
        if not run.check(isinstance(e, WSManFaultError), "kind", "%s: a WSMan fault %r was reported as %s" % (what, a, r)):
            return False
        code: t.Any = a["code"] if a.get("detail", True) else a["subcode"]
        try:
            code = int(code)
        except ValueError:
            pass
        prov = a.get("provider") if a.get("detail", True) else None
        exp = {
            "code": code,
            "machine": a["machine"] if a.get("detail", True) else None,
            "reason": a["reason"].strip() or None,
            "provider": prov[0] if prov else None,
            "provider_path": prov[1] if prov else None,
            "provider_fault": (prov[2].strip() or None) if prov else None,
        }
        for k, v in exp.items():
            if not run.check((getattr(e, k) or None) == (v or None) or k == "code" and getattr(e, k) == v, "detail", "%s: fault %s is %.200r, the server sent %.200r" % (what, k, getattr(e, k), v)):
                return False
        return run.check(not exp["code"] or str(exp["code"]) in str(e), "text", "%s: the message %.200r does not name the code" % (what, str(e)))
    if f["kind"] == "http_err":
        if f["status"] == 401:
            return run.check(isinstance(e, AuthenticationError), "kind", "%s: HTTP 401 was reported as %s" % (what, r))
        if not run.check(isinstance(e, WinRMTransportError), "kind", "%s: HTTP %d with body %.100r was reported as %s" % (what, f["status"], f["body"], r)):
            return False
        return run.check((e.protocol, e.code, e.response_text) == ("http", f["status"], f["body"]), "detail", "%s: HTTP %d %.100r was reported as %r" % (what, f["status"], f["body"], e.args))
    return True


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    ses = s.Session(run, h, sc.get("kind", "pool"))
    fired: t.List[t.Dict] = []
    h.on_fire = lambda f: fired.append(f)
    doomed: t.Set[int] = set()
    over = False
    for i, op in enumerate(sc["ops"]):
        if len(op) > 1 and op[0] not in ("set_min", "set_max", "alive") and op[1] in doomed:
            continue
        if op[0] == "keys" and ses.pool.state != 2:
            continue
        run.settle(1.0)
        armed = [h.arm(f) for j, f in sc.get("op_faults", []) if j == i]
        again: t.Optional[t.List] = op
        for attempt in range(8):
            del fired[:]
            n0 = len(h.requests)
            alive0 = ses.pool.state if ses.pool is not None else None
            r = ses.do(again)
            if r is None:
                break
            visible = [f for f in fired if not (f["kind"] == "fault" and f["on"] == "Receive" and f["args"]["code"] == server.E_OPTIMEOUT and f["args"].get("detail", True))]
            waited = len(fired) - len(visible)
            if waited:
                run.cover["waited_out"] += waited
            what = "%s%s" % (again[0], " (again)" if attempt else "")
            if visible:
                f = visible[-1]
                run.cover["%s:%s" % (f["kind"], f["on"])] += 1
                if not run.check(not r.ok, "success", "%s %s although the server answered its %s request with %r" % (what, r, f["on"], {k: f[k] for k in ("kind", "args", "status", "body") if k in f})):
                    return
                if not run.check(len(visible) == 1, "again", "%s went on after an error answer" % what):
                    return
                if not describe(run, what, f, r):
                    return
            elif not r.ok:
                if type(r.exc).__name__.endswith("StateError") and len(h.requests) == n0:
                    break  # refused without asking the server: P09 and P10 judge that
                if op[0] == "reset" and "2.3" in str(r.exc) and sc["srv"].get("proto", "2.3") != "2.3" and len(h.requests) == n0:
                    break
                run.bad("after", "%s %s although the server answered every request%s" % (what, r, " after an earlier reported error" if attempt or run.sim.fired else ""))
                return
            if r.ok:
                break
            # the session's other operations still work: do it again, or whatever takes it to its end
            again = retry(op, visible[-1]["on"], ses, doomed)
            if again is None:
                break
        for f in armed:
            f["used"] = True
        if op[0] == "open" and ses.pool is not None and ses.pool.state != 2:
            r = run.call(ses.pool.close)
            run.must(r, "after", "closing a pool whose opening failed")
            break
        if op[0] in ("connect", "adopt") and not r.ok:
            over = True  # a new client that could not finish connecting is P11's business
            break
        if op[0] == "keys" and not run.viol and ses.pool.state == 2:
            check_key(run, h, ses)
        if run.viol or not judge(run, h, ses, doomed):
            return
    for f in h.faults:
        f["used"] = True
    run.settle(1.0)
    if ses.pool is not None and ses.pool.state == 2 or ses.shell is not None and ses.shell.opened:
        run.must(ses.do(["close"]), "after", "closing the session")
    if not over and not h.cfg.get("pool", {}).get("connect_split"):
        run.check(not any(sh.state == "Connected" for sh in h.shells.values()), "left", "a connected shell is left on the server at the end: %r" % [sh.id for sh in h.shells.values()])
    run.problems("refused")


def retry(op: t.List, on: str, ses: s.Session, doomed: t.Set[int]) -> t.Optional[t.List]:
    name = op[0]
    if name in ("begin", "invoke"):
        if on == "Command":
            if ses.kind == "proc":
                ses.pipes.pop(op[1], None)
            return op
        if on == "Receive":
            return ["end", op[1]]
        doomed.add(op[1])
        return ["stop", op[1]]
    if name == "open" and on == "Receive":
        return None
    if name == "adopt" and on != "Enumerate":
        return None
    if name == "meta" and on == "Receive":
        return op
    if name == "send":
        return op
    return op


def check_key(run: fw.Run, h: t.Any, ses: s.Session) -> None:
    from pypsrp.complex_objects import ObjectMeta

    r = run.call(ses.pool.serialize, "s3cret", ObjectMeta("SS"))
    if run.must(r, "after", "encrypting a secure string after exchange_keys() returned"):
        sh = next(x for x in h.all_shells if x.id.upper() == ses.pool.shell.id.upper())
        run.check(sh.pool.decrypt(r.value.text) == "s3cret", "key", "the server cannot decrypt a secure string after the key exchange")


def judge(run: fw.Run, h: t.Any, ses: s.Session, doomed: t.Set[int]) -> bool:
    for k, ps in ses.pipes.items():
        if k in doomed or k not in ses.pipes:
            continue
        if ses.kind == "proc":
            sp = next((p for sh in h.all_shells for p in sh.all_commands if p.id == str(ps.id).upper()), None)
            if sp is None:
                continue
            if ps.state.endswith("Done"):
                if not run.check((ps.stdout, ps.stderr, ps.rc) == (sp.stdout, sp.stderr, sp.target.rc), "data", "process %d: %.200r instead of %.200r" % (k, (ps.stdout, ps.stderr, ps.rc), (sp.stdout, sp.stderr, sp.target.rc))):
                    return False
            elif not run.check(sp.stdout.startswith(ps.stdout) and sp.stderr.startswith(ps.stderr), "data", "process %d: output is not a prefix of what it wrote" % k):
                return False
            continue
        pipe = c.pipe_of(h, ps)
        if pipe is None:
            continue
        if ps.state in (4, 5) or ps.state == 3 and not pipe.signals:
            if not c.check_pipe(run, pipe, ps, "data", "pipeline %d" % k):
                return False
        else:
            outs = [p for kk, p in pipe.sent if kk == "output"]
            d = c.compare_output(outs[: len(ps.output)], ps.output, "output")
            if d:
                run.bad("data", "pipeline %d: %s" % (k, d))
                return False
    return True
