"""P16: fetch() replaces the destination only with the verified remote content."""
from __future__ import annotations

import errno
import hashlib
import os
import random
import resource
import shutil
import signal
import tempfile
import typing as t

from .. import fw, kernel, values
from . import files

RUNS = {"quick": 2400, "thorough": 250000}

SIZES = (0, 1, 2, 3, 57, 1000, 4096, 20000, 150000)
DISK = ("limit", "limit", "short_write", "copy_err", "open_err", "close_err")


def gen_op(rng: random.Random) -> t.Dict:
    op: t.Dict[str, t.Any] = {"size": rng.choice(SIZES) if rng.random() < 0.6 else rng.randint(1, 5000), "dest": rng.choice(["new", "old", "old", "old", "nodir", "link", "unicode"]), "seed": rng.getrandbits(32), "src": rng.choice(["C:\\data\\a b.bin", "rel.txt", "C:\\" + "x" * 40, "C:\\'q'\"$x`.bin", "C:\\%TMP%\\\u00e9\u4e2d"]), "expand": rng.random() < 0.3}
    r = rng.random()
    if r < 0.35:
        op["remote"] = rng.choice(["tamper_flip", "tamper_cut", "tamper_add", "hash", "hash_case", "refuse", "missing", "Failed", "Stopped", "nodata", "nohash", "broken64"])
    if rng.random() < 0.35:
        op["disk"] = rng.choice(DISK)
        op["at"] = rng.choice([0, 0, 1, 100, 4095, 4096, rng.randint(0, 20000)])
        op["err"] = rng.choice(["ENOSPC", "EIO", "EDQUOT"])
    if rng.random() < 0.3:
        on = rng.choice(["Receive", "Receive", "Command", "Send", "Create", "Delete"])
        kind = rng.choice(["drop_req", "drop_resp", "rst_before", "rst_after", "http_err", "fault", "trunc_resp", "fin_after"])
        f: t.Dict[str, t.Any] = {"on": on, "n": rng.choice([1, 1, 2, 3]), "kind": kind}
        if kind == "http_err":
            f.update(status=rng.choice([500, 503]), body="x", ctype="text/plain")
        elif kind == "fault":
            f["args"] = {"code": 5, "reason": "no"}
        elif kind == "trunc_resp":
            f["how"] = rng.choice(["fin", "rst", "dead"])
        op["net"] = f
    if rng.random() < 0.2:
        op["warn"] = [values.text(rng) for _ in range(rng.randint(1, 2))]
    return op


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng, tiny=False)
    srv["by_name"] = False
    srv["resp_units"] = rng.choice([[1, 3], [1, 40], [5, 60]])
    srv.pop("stream_chunk", None)
    srv["delay"] = rng.choice([0.0, 0.0, 3.0, 45.0])
    net = fw.gen_net(rng)
    net["chunk"] = rng.choice([0, 0, 0, 1460])
    return {"net": net, "srv": srv, "ws": fw.gen_ws(rng), "ops": [gen_op(rng) for _ in range(rng.choice([1, 2, 4]))]}


class Disk:
    """The local disk's misbehaviour while one call runs."""

    def __init__(self, run: fw.Run, kind: t.Optional[str], at: int, err: str) -> None:
        self.run = run
        self.kind = kind
        self.at = at
        self.errno = getattr(errno, err)
        self.hits = 0
        self.saved: t.List[t.Tuple[t.Any, str, t.Any]] = []

    def patch(self, name: str, fn: t.Any) -> None:
        self.saved.append((os, name, getattr(os, name)))
        setattr(os, name, fn)

    def hit(self) -> None:
        self.hits += 1
        self.run.sim.fired["disk_" + str(self.kind)] += 1
        self.run.sim.log("disk", self.kind)

    def __enter__(self) -> "Disk":
        k = self.kind
        if k == "limit":
            # every file ends at this size: writes come back short, then fail
            self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
            self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.at, self.old[1]))
        elif k == "short_write":
            real_write = os.write

            def write(fd: int, data: t.Any) -> int:
                if self.hits or len(data) <= 1:
                    return real_write(fd, data)
                self.hit()
                return real_write(fd, bytes(data)[: max(1, min(self.at, len(data) - 1))])

            self.patch("write", write)
        elif k == "copy_err":
            real_sendfile = os.sendfile

            def sendfile(out: int, inp: int, offset: t.Any, count: int, *a: t.Any) -> int:
                if self.hits:
                    raise OSError(self.errno, "disk full")
                self.hit()
                if self.at == 0:
                    raise OSError(self.errno, "disk full")
                return real_sendfile(out, inp, offset, min(count, self.at))

            self.patch("sendfile", sendfile)
        elif k == "open_err":
            real_open = os.open

            def open_(path: t.Any, flags: int, *a: t.Any, **kw: t.Any) -> int:
                if flags & os.O_CREAT and not self.hits:
                    self.hit()
                    raise OSError(self.errno, "cannot create", path)
                return real_open(path, flags, *a, **kw)

            self.patch("open", open_)
        elif k == "close_err":
            real_close = os.close

            def close(fd: int) -> None:
                real_close(fd)
                if not self.hits:
                    self.hit()
                    raise OSError(self.errno, "close failed")

            self.patch("close", close)
        return self

    def __exit__(self, *a: t.Any) -> None:
        if self.kind == "limit":
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
            signal.signal(signal.SIGXFSZ, self.sig)
        for o, name, fn in self.saved:
            setattr(o, name, fn)


def run(run: fw.Run, sc: t.Dict) -> None:
    h = run.host(sc["srv"])
    fl = files.Files(h)
    tmp = os.path.join(run.scratch, "tmp")
    shutil.rmtree(tmp, ignore_errors=True)
    os.mkdir(tmp)
    base = fw.scratch_dir(run)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        cl = run.client()
        for i, op in enumerate(sc["ops"]):
            if not fetch(run, h, fl, cl, op, base, tmp, "fetch %d" % i):
                return
            run.settle(1.0)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(tmp, ignore_errors=True)
    run.problems("refused", ("psrp", "dup", "soap"))


def flip(data: bytes, at: int) -> bytes:
    at %= max(1, len(data))
    return data[:at] + bytes([data[at] ^ 1]) + data[at + 1 :] if data else b"x"


def fetch(run: fw.Run, h: t.Any, fl: files.Files, cl: t.Any, op: t.Dict, base: str, tmp: str, what: str) -> bool:
    data = random.Random(op["seed"]).randbytes(op["size"])
    src = op["src"]
    fl.fs = {files.abspath(src): data}
    fl.warn = op.get("warn", [])
    fl.tamper = fl.hash_of = fl.refuse = fl.drop = None
    fl.end = "Completed"
    rem = op.get("remote")
    same = True  # what is sent is what is there
    if rem == "tamper_flip":
        fl.tamper, same = lambda d: flip(d, op["seed"]), False
    elif rem == "tamper_cut":
        fl.tamper, same = lambda d: d[:-1], False
    elif rem == "tamper_add":
        fl.tamper, same = lambda d: d + b"\0", False
    elif rem == "hash":
        fl.hash_of = lambda d: hashlib.sha1(d + b"x").hexdigest()
    elif rem == "hash_case":
        fl.hash_of = lambda d: hashlib.sha1(d).hexdigest()[:-1] + "x"
    elif rem == "refuse":
        fl.refuse = "access denied"
    elif rem == "missing":
        fl.fs = {}
    elif rem in ("Failed", "Stopped"):
        fl.end = rem
    elif rem in ("nodata", "nohash"):
        fl.drop = rem[2:]
    elif rem == "broken64":
        fl.tamper, same = lambda d: d[: len(d) // 2], False
    h.plans[:] = [([["sleep", h.cfg["delay"]]] if h.cfg.get("delay") else []) + [["call", "fetch"]]]
    dest = os.path.join(base, {"nodir": "none/f.bin", "unicode": "f \u00e9\u4e2d.bin"}.get(op["dest"], "f.bin"))
    target = dest
    for p in os.listdir(base):
        os.unlink(os.path.join(base, p))
    prev: t.Optional[bytes] = None
    if op["dest"] in ("old", "link"):
        prev = random.Random(op["seed"] + 1).randbytes(op["seed"] % 7000)
        target = os.path.join(base, "real.bin") if op["dest"] == "link" else dest
        with open(target, "wb") as fh:
            fh.write(prev)
        if op["dest"] == "link":
            os.symlink(target, dest)
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    armed = [h.arm(op["net"])] if op.get("net") else []
    disk = Disk(run, op.get("disk"), op.get("at", 0), op.get("err", "EIO"))
    with disk:
        r = run.call(cl.fetch, src, dest, expand_variables=op.get("expand", False))
    for f in armed:
        f["used"] = True
    h.on_fire = None
    now: t.Optional[bytes] = None
    if os.path.exists(target):
        with open(target, "rb") as fh:
            now = fh.read()
    what = "%s of %d bytes (remote: %s, disk: %s at %s, network: %s)" % (what, len(data), rem, op.get("disk"), op.get("at"), [(f["kind"], f["on"]) for f in fired])
    left = os.listdir(tmp)
    if not run.check(not left, "left", "%s %s and left %r behind" % (what, r, left)):
        return False
    others = sorted(p for p in os.listdir(base) if os.path.join(base, p) not in (dest, target))
    if not run.check(not others, "left", "%s %s and left %r beside the destination" % (what, r, others)):
        return False
    local = op.get("disk") == "limit" and op["at"] < len(data) or disk.hits > 0
    if r.ok:
        run.cover["fetched"] += 1
        if not run.check(now == data, "content", "%s returned, the destination has %s" % (what, "nothing" if now is None else "%d bytes, %sthe remote file's" % (len(now), "" if now == data else "not "))):
            return False
        return run.check(rem not in ("refuse", "missing", "Failed", "hash", "hash_case"), "ok", "%s returned though the remote side reported an error or another checksum" % what)
    run.cover["raised:%s" % (rem or op.get("disk") or (fired[0]["kind"] if fired else "none"))] += 1
    cleanup = rem not in ("refuse", "missing", "Failed", "hash", "hash_case", "nodata", "nohash") and now == data and any(f["on"] == "Delete" for f in fired)  # only removing the shell failed
    if not local and not cleanup and not run.check(now == prev, "touched", "%s %s and changed the destination from %s to %s bytes" % (what, r, prev and len(prev), now and len(now))):
        return False
    if local and op.get("disk") != "copy_err" and op.get("disk") != "close_err":
        # the verified content never came to be in full: the old one stays
        if not run.check(now in (prev, data), "touched", "%s %s and left %s of %d bytes at the destination" % (what, r, now and len(now), len(data))):
            return False
    legit = rem or local or fired or not data or op["dest"] == "nodir"
    return run.check(legit, "ok", "%s %s with nothing in its way" % (what, r))
