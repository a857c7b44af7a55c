"""P18: with message encryption required nothing is sent or accepted in the clear."""
from __future__ import annotations

import random
import typing as t

from .. import fw
from . import common as c
from . import p07
from . import session as s

RUNS = {"quick": 1500, "thorough": 100000}

LOSS = ("drop_req", "drop_resp", "rst_before", "rst_after", "fin_before", "fin_after", "close_after", "dead_after", "reauth_after", "trunc_resp")


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng, auth=False)
    srv["by_name"] = True
    srv["auth"] = rng.choice(["ntlm", "ntlm", "negotiate", "negotiate", "credssp"])
    ssl = rng.random() < 0.2
    enc = rng.choice(["auto", "auto", "always"]) if not ssl else rng.choice(["always", "always", "auto"])
    if rng.random() < 0.06:
        enc = "never"
    srv["client_enc"] = enc
    srv["encrypt"] = enc == "always" or (enc == "auto" and not ssl)
    if ssl:
        srv.update(ssl=True, port=5986)
    r = rng.random()
    if r < 0.2:
        srv["mime"] = "exchange"
    if rng.random() < 0.3:
        srv["enc_part"] = rng.choice([100, 1000, 1000, 5000, 16384])
    if rng.random() < 0.15:
        srv["proxy"] = True
    kind = rng.choice(["proc", "pool", "pool"])
    big = rng.choice([0, 0, 0, 5000, 20000, 60000])
    ops, plans = s.gen_ops(rng, kind, rng.choice([3, 6, 10]), big)
    srv["procs" if kind == "proc" else "plans"] = plans
    if kind == "pool":
        srv["pool"]["open"] = dict(srv["pool"].get("open", {}), private=[])
    fl: t.List = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randrange(len(ops))
        on = rng.choice(s.CLASSES[ops[i][0]])
        n = rng.choice([1, 1, 2]) if on == "Receive" or ops[i][0] in ("begin", "invoke") else 1
        r = rng.random()
        f: t.Dict[str, t.Any]
        if r < 0.45:
            f = {"kind": "tamper", "how": rng.choice(["flip", "flip", "sig", "length"]), "pos": rng.random(), "bit": rng.randrange(8), "delta": rng.choice([1, -1, 16, -16, 1000])}
        elif r < 0.65:
            f = {"kind": "clear_resp"}
        else:
            f = {"kind": rng.choice(LOSS)}
            if f["kind"] == "trunc_resp":
                f.update(how=rng.choice(["fin", "rst", "dead"]), frac=rng.random())
        f.update(on=on, n=n)
        fl.append([i, f])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": fw.gen_ws(rng), "kind": kind, "ops": ops, "op_faults": fl}


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    cfg = sc["srv"]
    ses = s.Session(run, h, sc.get("kind", "pool"))
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    wrap = bool(cfg.get("encrypt"))
    if not run.check(ses.w.transport.wrap_required is wrap, "config", "encryption=%r over %s wraps messages: %r" % (cfg.get("client_enc"), "https" if cfg.get("ssl") else "http", ses.w.transport.wrap_required)):
        return
    lost = False  # the connection was lost or its authentication forgotten; the next call may fail for it
    failed: t.Optional[str] = None
    for i, op in enumerate(sc["ops"]):
        run.settle(1.0)
        armed = [h.arm(f) for j, f in sc.get("op_faults", []) if j == i]
        del fired[:]
        n0 = len(h.responses)
        r = ses.do(op)
        for f in armed:
            f["used"] = True
        if not sealed(run, h, wrap):
            return
        if r is None:
            continue
        what = "%s with %r" % (op[0], [(f["kind"], f["on"], f.get("how")) for f in fired])
        bad = [f for f in fired if f["kind"] in ("tamper", "clear_resp")]
        if bad and wrap:
            f = bad[-1]
            faulted = [x for x in h.responses[n0:] if x["fault"] is not None]
            if f["kind"] == "clear_resp" and faulted:
                pass  # an error reply may be in the clear
            elif not run.check(not r.ok, "accepted", "%s %s" % (what, r)):
                return
            run.cover["refused:" + f["kind"] + ":" + f.get("how", "")] += 1
        if not p07.judge(run, h, ses, set()):
            return
        if not r.ok:
            known = lost or fired or type(r.exc).__name__.endswith("StateError") or (op[0] == "reset" and cfg.get("proto"))
            if not run.check(known, "raised", "%s %s although nothing was wrong" % (what, r)):
                return
            if op[0] == "reset" and not fired and not lost:
                continue
            failed = "%s %s" % (what, r)
            break
        lost = lost or any(f["kind"] in LOSS for f in fired)
    if failed is None:
        for k, ps in ses.pipes.items():
            if ses.kind == "pool":
                pipe = c.pipe_of(h, ps)
                if pipe is not None and ps.state in (4, 5) and not c.check_pipe(run, pipe, ps, "pipe"):
                    return
            else:
                proc = next((p for sh in h.all_shells for p in sh.all_commands if p.cmd == "exe%d" % k), None)
                if ps.state.endswith("Done") and not run.check((proc.stdout, proc.stderr, proc.rc if hasattr(proc, "rc") else ps.rc) == (ps.stdout, ps.stderr, ps.rc), "process", "process %d gave %.100r %.100r" % (k, ps.stdout, ps.stderr)):
                    return
    # the client goes on: a fresh pool over it works, at the latest when the next call has found the connection gone
    for f in h.faults:
        f["used"] = True
    run.settle(3.0)
    undec = h.counts.get("undecryptable", 0)
    h.cfg.pop("idle_close", None)
    pool = RunspacePool(ses.w)
    r = run.call(pool.open)
    if not r.ok and (failed is not None or lost):
        pool = RunspacePool(ses.w)
        r = run.call(pool.open)
    if not run.must(r, "after", "opening a pool after %s" % (failed or "a session without failures")):
        return
    ps = PowerShell(pool)
    ps.add_script("again 100")
    if not run.must(run.call(ps.invoke), "after", "running a pipeline after %s" % (failed or "a session without failures")) or not c.check_pipe(run, c.pipe_of(h, ps), ps, "pipe"):
        return
    run.must(run.call(pool.close), "after", "closing the pool")
    if not sealed(run, h, wrap):
        return
    if not run.sim.fired:
        run.check(not undec and not h.counts.get("undecryptable"), "garbled", "the server could not decrypt %d requests" % h.counts.get("undecryptable", 0))
    run.problems("model", ("clear", "crypt", "soap", "psrp", "http", "auth", "dup", "proxy"))


def sealed(run: fw.Run, h: t.Any, wrap: bool) -> bool:
    """Every request body on the wire is sealed (or, where encryption is off, none is)."""
    for x in h.http[h.counts.get("sealed", 0) :]:
        if not x["body"]:
            continue
        enc = x["ctype"].startswith("multipart/")
        if wrap:
            if not run.check(enc and x["body"].startswith(b"--Encrypted Boundary\r\n") and b"Envelope" not in x["body"] and b"wsman" not in x["body"], "clear", "a request body of %d bytes, content type %r, went out unsealed" % (x["len"], x["ctype"])):
                return False
        elif not run.check(not enc and x["body"].startswith(b"<"), "sealed", "a request body, content type %r, was sealed though encryption is off" % x["ctype"]):
            return False
    h.counts["sealed"] = len(h.http)
    return True
