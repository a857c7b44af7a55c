"""The remote halves of Client.copy and Client.fetch: what copy.ps1 and fetch.ps1 do, as Python stubs run by the simulated server."""
from __future__ import annotations

import base64
import binascii
import hashlib
import typing as t

from .. import clixml as cx
from .. import wire

TEMP = "C:\\Temp"


def abspath(p: str) -> str:
    """What the server reports for a destination it was given."""
    return p if p[1:3] == ":\\" else "C:\\home\\" + p


class Files:
    """Remote file system of one simulated host plus a record of what the scripts did."""

    def __init__(self, h: t.Any) -> None:
        self.h = h
        self.fs: t.Dict[str, bytes] = {}
        self.copies: t.List[t.Dict] = []
        self.tamper: t.Optional[t.Callable[[bytes], bytes]] = None
        self.warn: t.List[str] = []
        self.refuse: t.Optional[str] = None
        self.hash_of: t.Optional[t.Callable[[bytes], str]] = None
        self.end = "Completed"  # how the script ends after it has done its work
        self.drop: t.Optional[str] = None  # "data" or "hash": an output object that is not sent
        h.script_hooks["copy"] = self.copy
        h.script_hooks["fetch"] = self.fetch

    def args(self, p: t.Any) -> t.List:
        return [cx.prim(a) for a in p.args()]

    def fail(self, p: t.Any, text: str) -> None:
        p.finish("Failed", wire.error_record(text))

    def copy(self, p: t.Any) -> None:
        args = self.args(p)
        rec: t.Dict[str, t.Any] = {"args": args, "items": len(p.inputs), "ok": False, "shell": p.pool.shell}
        self.copies.append(rec)
        for w in self.warn:
            p.emit("WARNING_RECORD", wire.informational("warning", w, None), ("warning", w))
        if self.refuse:
            return self.fail(p, self.refuse)
        try:
            items = [base64.b64decode(cx.prim(x), validate=True) for x in p.inputs]
        except (binascii.Error, ValueError, TypeError) as e:
            return self.fail(p, "not base64: %s" % e)
        if not items:
            return self.fail(p, "no input")
        data = b"".join(items[:-1])
        if self.tamper is not None:
            data = self.tamper(data)
        if hashlib.sha1(data).hexdigest().encode() != items[-1]:
            return self.fail(p, "Transport failure, hash mismatch")
        dest = abspath(args[0])
        self.fs[dest] = data
        rec.update(ok=True, dest=dest, data=data)
        p.emit("PIPELINE_OUTPUT", ["S", dest], ("output", ["S", dest]))
        self.finish(p)

    def finish(self, p: t.Any) -> None:
        p.finish(self.end, wire.error_record("the script failed at its end") if self.end == "Failed" else None)

    def fetch(self, p: t.Any) -> None:
        args = self.args(p)
        path = abspath(args[0])
        for w in self.warn:
            p.emit("WARNING_RECORD", wire.informational("warning", w, None), ("warning", w))
        if self.refuse or path not in self.fs:
            return self.fail(p, self.refuse or "The path at '%s' does not exist" % path)
        data = self.fs[path]
        sent = self.tamper(data) if self.tamper is not None else data
        digest = self.hash_of(data) if self.hash_of else hashlib.sha1(data).hexdigest()
        if data and self.drop != "data":
            b = base64.b64encode(sent).decode()
            p.emit("PIPELINE_OUTPUT", ["S", b], ("output", ["S", b]))
        if self.drop != "hash":
            p.emit("PIPELINE_OUTPUT", ["S", digest], ("output", ["S", digest]))
        self.finish(p)
