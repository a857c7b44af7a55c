"""P15: copy() either places an identical file or fails."""
from __future__ import annotations

import builtins
import os
import random
import shutil
import typing as t

from .. import fw, kernel, values
from . import files

RUNS = {"quick": 1300, "thorough": 120000}

CHANGES = ("grow", "shrink", "flip", "grow_after", "eio", "gone", "dir")


def gen_op(rng: random.Random) -> t.Dict:
    op: t.Dict[str, t.Any] = {"seed": rng.getrandbits(32), "dest": rng.choice(["C:\\data\\a b.bin", "rel.txt", "C:\\" + "x" * 40, "C:\\'q'\"$x`.bin", "C:\\%TMP%\\\u00e9\u4e2d_x0041_"]), "expand": rng.random() < 0.3}
    r = rng.random()
    if r < 0.5:
        op["size"] = [rng.choice([1, 1, 2, 3]), rng.choice([-2, -1, 0, 1, 2])]  # so many buffers and so much more
    else:
        op["size"] = [0, rng.choice([0, 0, 1, 2, 3, 4, 57, 1000, rng.randint(0, 20000)])]
    op["fill"] = rng.choice(["random", "random", "zero", "text"])
    if rng.random() < 0.25:
        op["change"] = rng.choice(CHANGES)
        op["at"] = rng.randint(1, 6)
        op["by"] = rng.choice([1, 1, 5, 5000, 40000])
    if rng.random() < 0.25:
        op["remote"] = rng.choice(["tamper", "cut", "refuse", "Failed", "Stopped"])
    if rng.random() < 0.35:
        on = rng.choice(["Receive", "Receive", "Command", "Send", "Send", "Send", "Create", "Delete"])
        kind = rng.choice(["drop_req", "drop_resp", "rst_before", "rst_after", "http_err", "fault", "trunc_resp", "fin_after"])
        f: t.Dict[str, t.Any] = {"on": on, "n": rng.choice([1, 1, 2, 3, 7]), "kind": kind}
        if kind == "http_err":
            f.update(status=rng.choice([500, 503, 429]), body="x", ctype="text/plain")
        elif kind == "fault":
            f["args"] = {"code": rng.choice([5, 2150858793]), "reason": "no"}
        elif kind == "trunc_resp":
            f["how"] = rng.choice(["fin", "rst", "dead"])
        op["net"] = f
    if rng.random() < 0.2:
        op["warn"] = [values.text(rng) for _ in range(rng.randint(1, 2))]
    return op


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng, tiny=False)
    srv["resp_units"] = [1, 40]
    srv.pop("stream_chunk", None)
    ws = fw.gen_ws(rng)
    ws["max_envelope_size"] = rng.choice([8192, 12345, 16384, 16384, 32768, 65536, 153600] if rng.random() < 0.9 else [512000])
    if ws["max_envelope_size"] == 153600 and rng.random() < 0.5:
        del ws["max_envelope_size"]
    net = fw.gen_net(rng)
    net["chunk"] = rng.choice([0, 0, 0, 1460])
    return {"net": net, "srv": srv, "ws": ws, "ops": [gen_op(rng) for _ in range(rng.choice([1, 2, 3]))], "delay": rng.choice([0.0, 0.0, 3.0, 45.0])}


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    fl = files.Files(h)
    base = os.path.join(run.scratch, "src")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    try:
        cl = run.client()
        for i, op in enumerate(sc["ops"]):
            if not copy(run, h, fl, cl, op, base, sc.get("delay", 0.0), "copy %d" % i):
                return
            run.settle(1.0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    run.problems("refused", ("psrp", "dup", "soap"))


class BadFile:
    """A local file that cannot be read to its end."""

    def __init__(self, f: t.Any, left: int) -> None:
        self._f = f
        self._left = left

    def __getattr__(self, name: str) -> t.Any:
        return getattr(self._f, name)

    def __enter__(self) -> "BadFile":
        return self

    def __exit__(self, *a: t.Any) -> None:
        self._f.close()

    def _eio(self) -> None:
        self._left -= 1
        if self._left < 0:
            raise OSError(5, "input/output error")

    def read(self, *a: t.Any) -> bytes:
        self._eio()
        return self._f.read(*a)

    def readinto(self, b: t.Any) -> int:
        self._eio()
        return self._f.readinto(b)


def copy(run: fw.Run, h: t.Any, fl: files.Files, cl: t.Any, op: t.Dict, base: str, delay: float, what: str) -> bool:
    k, d = op["size"]
    buf = int((cl.wsman.max_payload_size - 82) / 4 * 3)
    n = max(0, k * buf + d)
    rnd = random.Random(op["seed"])
    data = {"zero": b"\0" * n, "text": (b"0123456789\r\n" * (n // 12 + 1))[:n]}.get(op["fill"]) or rnd.randbytes(n)
    src = os.path.join(base, "f \u00e9.bin")
    ch = op.get("change")
    if os.path.isdir(src):
        os.rmdir(src)
    with open(src, "wb") as fh:
        fh.write(data)
    if ch == "gone":
        os.unlink(src)
    elif ch == "dir":
        os.unlink(src)
        os.mkdir(src)
    fl.copies.clear()
    fl.warn = op.get("warn", [])
    fl.tamper = fl.refuse = None
    fl.end = "Completed"
    rem = op.get("remote")
    if rem == "tamper":
        fl.tamper = lambda x: (bytes([x[0] ^ 1]) + x[1:]) if x else b"x"
    elif rem == "cut":
        fl.tamper = lambda x: x[:-1] if x else b"x"
    elif rem == "refuse":
        fl.refuse = "access denied"
    elif rem in ("Failed", "Stopped"):
        fl.end = rem
    h.plans[:] = [[["wait_input"]] + ([["sleep", delay]] if delay else []) + [["call", "copy"]]]
    dest = op["dest"]
    before = fl.fs.get(files.abspath(dest))
    new = data
    hit = [False]
    sends = [0]

    def change(rec: t.Dict) -> None:
        # the file changes while it is being read
        nonlocal new
        if rec["action"] not in ("Send", "Command") or hit[0]:
            return
        sends[0] += 1
        if sends[0] != op["at"]:
            return
        hit[0] = True
        run.sim.fired["file_" + ch] += 1
        if ch in ("grow", "grow_after"):
            new = data + b"\xff" * op["by"]
        elif ch == "shrink":
            new = data[: max(0, len(data) - op["by"])]
        elif ch == "flip":
            at = (op["seed"] % len(data)) if data else 0
            new = data[:at] + bytes(x ^ 0xFF for x in data[at : at + op["by"]]) + data[at + op["by"] :]
        with real_open(src, "r+b") as fh:
            fh.write(new)
            fh.truncate(len(new))

    real_open = builtins.open
    if ch == "eio":

        def bad_open(path: t.Any, *a: t.Any, **kw: t.Any) -> t.Any:
            f = real_open(path, *a, **kw)
            if os.fsdecode(path) == src if isinstance(path, (str, bytes)) else False:
                hit[0] = True
                run.sim.fired["file_eio"] += 1
                return BadFile(f, op["at"] - 1)
            return f

        builtins.open = bad_open  # type: ignore[assignment]
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    armed = [h.arm(op["net"])] if op.get("net") else []
    if ch in ("grow", "grow_after", "shrink", "flip"):
        h.on_request = change
    w0 = len(run.warned)
    s0 = len(h.all_shells)
    try:
        r = run.call(cl.copy, src, dest, expand_variables=op.get("expand", False))
    finally:
        builtins.open = real_open
        h.on_request = None
        h.on_fire = None
    for f in armed:
        f["used"] = True
    now = fl.fs.get(files.abspath(dest))
    what = "%s of %d bytes (buffer %d, remote: %s, source: %s, network: %s)" % (what, n, buf, rem, ch if hit[0] or ch in ("gone", "dir") else None, [(f["kind"], f["on"]) for f in fired])
    if ch in ("gone", "dir"):
        run.cover["raised:" + ch] += 1
        return run.check(not r.ok and now == before, "ok", "%s: the source cannot be read, but the call %s" % (what, r))
    ok = [x for x in fl.copies if x["ok"] and x["shell"] in h.all_shells[s0:]]  # not those of earlier calls that failed
    if r.ok:
        run.cover["copied:%d" % min(k, 3)] += 1
        if not run.check(len(ok) == 1, "content", "%s returned, the server carried out %d copies" % (what, len(ok))):
            return False
        now = ok[0]["data"]
        if not hit[0]:
            if not run.check(now == data, "content", "%s returned, the server has %d bytes, %sthe file's" % (what, len(now), "" if now == data else "not ")):
                return False
        else:
            good = len(now) in (len(data), len(new)) and all(b in (data[i : i + 1], new[i : i + 1]) for i, b in ((i, now[i : i + 1]) for i in range(len(now))))
            if not run.check(good, "content", "%s returned, the server has %d bytes that the file never had" % (what, len(now))):
                return False
        if not run.check(rem not in ("refuse", "Failed", "tamper", "cut"), "ok", "%s returned though the remote side reported an error" % what):
            return False
        if not run.check(r.value == ok[0]["dest"], "path", "%s returned %r, the server said %r" % (what, r.value, ok[0]["dest"])):
            return False
        got = [str(w.message) for w in run.warned[w0:] if w.category.__name__ == "UserWarning"]
        if not run.check(got == op.get("warn", []), "warn", "%s warned %r, the server %r" % (what, got, op.get("warn", []))):
            return False
        return run.check(ok[0]["args"] == [dest, op.get("expand", False)], "args", "%s ran with %r" % (what, ok[0]["args"]))
    run.cover["raised:%s" % (rem or (ch if hit[0] else None) or (fired[0]["kind"] if fired else "none"))] += 1
    return run.check(rem or hit[0] or fired, "ok", "%s %s with nothing in its way" % (what, r))
