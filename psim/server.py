"""Model WinRM host: HTTP, authentication, message encryption, WS-Man, WinRS processes and PSRP pools.

Independent of pypsrp.  Everything it executes is recorded in `effects` (the ground truth the checks judge against).
"""
from __future__ import annotations

import hashlib
import base64
import os
import re
import struct
import typing as t
import uuid
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

from . import clixml as cx
from . import kernel, net, wire

NS = {
    "s": "http://www.w3.org/2003/05/soap-envelope",
    "wsa": "http://schemas.xmlsoap.org/ws/2004/08/addressing",
    "wsman": "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd",
    "rsp": "http://schemas.microsoft.com/wbem/wsman/1/windows/shell",
    "wst": "http://schemas.xmlsoap.org/ws/2004/09/transfer",
    "wsen": "http://schemas.xmlsoap.org/ws/2004/09/enumeration",
    "wsmv": "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd",
    "pwsh": "http://schemas.microsoft.com/powershell",
    "f": "http://schemas.microsoft.com/wbem/wsman/1/wsmanfault",
}
_NSDECL = " ".join('xmlns:%s="%s"' % kv for kv in NS.items())
SHELL_NS = NS["rsp"]
STATE = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/"
ENUM_SHELL = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
E_OPTIMEOUT = 2150858793
E_SELECTORS = 2150858843
E_ACCESS = 5
MUTATING = ("Create", "Command", "Send", "Signal", "Delete", "Disconnect", "Reconnect", "Connect")
BOUNDARY = "Encrypted Boundary"


def attr(text: str) -> str:
    return escape(text, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;"})


def q(prefix: str, name: str) -> str:
    return "{%s}%s" % (NS[prefix], name)


class Fault(Exception):
    def __init__(self, code: int, reason: str, status: int = 500, subcode: str = "w:InternalError", machine: str = "host", provider: t.Optional[t.Tuple[str, str, str]] = None, detail: bool = True) -> None:
        self.code = code
        self.reason = reason
        self.status = status
        self.subcode = subcode
        self.machine = machine
        self.provider = tuple(provider) if provider else None
        self.detail = detail


_TLS: t.List[t.Any] = []


def _tls_context() -> t.Any:
    """The certificate and TLS settings of the CredSSP service (one for all runs of the process)."""
    if not _TLS:
        import ssl

        import spnego.tls

        now, kernel.CURRENT = kernel.CURRENT, None  # certificate dates and serial numbers are not part of a run
        try:
            import datetime

            from cryptography import x509
            from cryptography.hazmat.primitives import hashes, serialization
            from cryptography.x509.oid import NameOID

            from . import seams

            key = seams.KEYS[0]
            name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "CREDSSP-srv")])
            t0 = datetime.datetime(2020, 1, 1)
            cert = x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key()).serial_number(4711).not_valid_before(t0).not_valid_after(t0.replace(year=2060)).sign(key, hashes.SHA256())
            enc = serialization.Encoding
            ctx = spnego.tls.default_tls_context("accept")
            path = os.path.join(os.environ["HOME"], "credssp-%d.pem" % os.getpid())
            with open(path, "wb") as fd:
                fd.write(cert.public_bytes(enc.PEM))
                fd.write(key.private_bytes(enc.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()))
            ctx.context.load_cert_chain(path)
            os.unlink(path)
            ctx.context.maximum_version = ssl.TLSVersion.TLSv1_2
            ctx.context.options |= ssl.OP_NO_TICKET
            ctx.public_key = spnego.tls.get_certificate_public_key(cert.public_bytes(enc.DER))
            _TLS.append(ctx)
        finally:
            kernel.CURRENT = now
    return _TLS[0]


class BadRequest(Exception):
    def __init__(self, status: int, why: str) -> None:
        self.status = status
        self.why = why


# ------------------------------------------------------------------------------------------- targets


class Target:
    """Something that can be polled: a pool's own stream or one command."""

    def __init__(self) -> None:
        self.q: t.List[t.Tuple] = []  # ps: (bytes, meta); process: (stream, bytes)
        self.done = False
        self.rc: t.Optional[int] = None
        self.pending: t.Optional["Pending"] = None
        self.replay: t.Dict[str, t.Tuple[int, bytes]] = {}
        self.polls = 0
        self.flush = False  # the next response carries everything there is
        self.unit_base: t.List[t.Tuple] = []  # fragments of the object partly delivered, for a new client
        self.cut: t.List[t.Tuple] = []


class Pending:
    def __init__(self, msgid: str, conn: net.Conn, stream: str, seq: int) -> None:
        self.msgid = msgid
        self.conn = conn
        self.stream = stream
        self.seq = seq
        self.alive = True
        self.waiters: t.List[t.Tuple[net.Conn, t.Any]] = []


class Shell:
    def __init__(self, host: "Host", sid: str, uri: str) -> None:
        self.host = host
        self.id = self.rpid = sid
        self.uri = uri
        self.state = "Connected"
        self.kind = "ps" if "/powershell/" in uri else "cmd"
        self.target = Target()
        self.commands: t.Dict[str, t.Any] = {}
        self.all_commands: t.List[t.Any] = []
        self.env: t.List[t.Tuple[str, str]] = []
        self.info: t.Dict[str, t.Any] = {}
        self.pool: t.Optional["Pool"] = None
        self.session = ""
        self.created_at = host.sim.now
        self.deleted = False


class Process:
    """A WinRS process executing a plan."""

    def __init__(self, shell: Shell, cid: str, cmd: str, args: t.List[str], plan: t.List) -> None:
        self.shell = shell
        self.host = shell.host
        self.id = cid
        self.cmd = cmd
        self.args = args
        self.plan = list(plan)
        self.target = Target()
        self.input = b""
        self.input_ended = 0
        self.echoed = 0
        self.stdout = b""
        self.stderr = b""
        self.ended = False
        self.signals: t.List[str] = []
        self.waiting = False

    def run(self) -> None:
        h = self.host
        while self.plan and not self.ended:
            st = self.plan[0]
            op = st[0]
            if op == "sleep":
                self.plan.pop(0)
                h.sim.after(st[1], self.run)
                return
            if op in ("wait_input", "echo"):
                if op == "echo" and self.echoed < len(self.input):
                    self._out("stdout", self.input[self.echoed :])
                    self.echoed = len(self.input)
                if not self.input_ended:
                    self.waiting = True
                    return
                self.waiting = False
                self.plan.pop(0)
                continue
            self.plan.pop(0)
            if op == "out":
                self._out(st[1], bytes.fromhex(st[2]))
            elif op == "out_sep":  # one stream element per chunk, even if empty
                self._out(st[1], bytes.fromhex(st[2]), force=True)
            elif op == "end":
                self._end(st[1])
            elif op == "hang":
                return
            else:
                raise kernel.HarnessError("process step %r" % (st,))

    def _end(self, rc: int) -> None:
        self.ended = True
        self.target.done = True
        self.target.rc = rc
        self.host.pump(self.target)

    def _out(self, stream: str, data: bytes, force: bool = False) -> None:
        if stream == "stdout":
            self.stdout += data
        else:
            self.stderr += data
        if data or force:
            self.target.q.append((stream, data))
        self.host.pump(self.target)

    def feed(self, data: bytes, end: bool) -> None:
        self.input += data
        if end:
            self.input_ended += 1
        if self.waiting:
            self.run()

    def signal(self, code: str) -> None:
        self.signals.append(code)
        if not self.ended and not code.endswith("Terminate"):
            self.plan = []
            self._end(-1073741510)


class Pipe:
    """A PSRP pipeline executing a plan."""

    def __init__(self, pool: "Pool", cid: str, pid: str, plan: t.List) -> None:
        self.pool = pool
        self.host = pool.host
        self.id = cid
        self.pid = pid
        self.index = len(pool.pipes)
        self.plan = list(plan)
        self.target = Target()
        self.create: t.Optional[cx.Tree] = None
        self.kind = "pipeline"
        self.inputs: t.List[cx.Tree] = []
        self.input_ended = 0
        self.after_end = 0
        self.echoed = 0
        self.state = "NotStarted"
        self.sent: t.List[t.Tuple[str, t.Any]] = []  # emission log
        self.host_calls: t.List[t.Dict] = []
        self.wait_ci: t.Optional[int] = None
        self.waiting = False
        self.signals: t.List[str] = []
        self.released = False
        self.asleep = False

    def start(self) -> None:
        self.state = "Running"
        self.run()

    def finish(self, state: str, err: t.Optional[cx.Tree] = None) -> None:
        if self.state != "Running":
            return
        self.state = state
        self.plan = []
        self.sent.append(("state", [state, err]))
        self.target.done = True
        self.pool.emit(self.target, "PIPELINE_STATE", self.pid, wire.pipeline_state(state, err))
        self.host.sim.log("pipe-end", self.pid, state)

    def emit(self, mtype: str, tree: cx.Tree, log: t.Optional[t.Tuple[str, t.Any]]) -> None:
        if log is not None:
            self.sent.append(log)
        self.pool.emit(self.target, mtype, self.pid, tree)

    def run(self) -> None:
        h = self.host
        while self.plan and self.state == "Running" and not self.asleep:
            st = self.plan[0]
            op = st[0]
            if op == "sleep":
                self.plan.pop(0)
                self.asleep = True

                def wake() -> None:
                    self.asleep = False
                    self.run()

                h.sim.after(st[1], wake)
                return
            if op in ("wait_input", "echo_input"):
                if op == "echo_input":
                    while self.echoed < len(self.inputs):
                        v = self.inputs[self.echoed]
                        self.echoed += 1
                        self.emit("PIPELINE_OUTPUT", v, ("output", v))
                if not self.input_ended:
                    self.waiting = True
                    return
                self.waiting = False
                self.plan.pop(0)
                continue
            if op == "host":
                if self.wait_ci is not None:
                    return
                self.plan.pop(0)
                _, mi, name, args, expects = st[:5]
                ci = self.pool.next_ci()
                rec = {"ci": ci, "mi": mi, "name": name, "args": args, "expects": expects, "answers": [], "pid": self.pid, "where": "pipe"}
                self.host_calls.append(rec)
                self.pool.host_calls.append(rec)
                self.emit("PIPELINE_HOST_CALL", wire.host_call(ci, mi, name, args), ("host", ci))
                if expects:
                    self.wait_ci = ci
                    return
                continue
            self.plan.pop(0)
            if op == "out":
                self.emit("PIPELINE_OUTPUT", st[1], ("output", st[1]))
            elif op == "raw_out":  # payload as text (kept for corrupted-object checks)
                self.pool.emit_raw(self.target, "PIPELINE_OUTPUT", self.pid, st[1].encode())
            elif op == "rec":
                kind, payload = st[1], st[2]
                mtype, tree = record(kind, payload)
                self.emit(mtype, tree, (kind, payload))
            elif op == "echo_args":
                labels: t.Dict = {}
                _labels(self.create, labels)
                for v in self.args():
                    v = _expand(v, labels, set())
                    self.emit("PIPELINE_OUTPUT", v, ("output", v))
            elif op == "pool":
                self.pool.do(st[1], self.target if st[2] == "pipe" else self.pool.shell.target)
            elif op == "end":
                self.finish(st[1], st[2] if len(st) > 2 else None)
            elif op == "call":
                h.script_hooks[st[1]](self)
            elif op == "hang":
                return
            else:
                raise kernel.HarnessError("pipeline step %r" % (st,))

    def args(self) -> t.List[cx.Tree]:
        assert self.create is not None
        ps = cx.get(self.create, "PowerShell")
        out = []
        for cmd in cx.get(ps, "Cmds")[1]["items"]:
            for a in cx.get(cmd, "Args")[1]["items"]:
                out.append(cx.get(a, "V"))
        return out

    def feed(self, v: cx.Tree) -> None:
        if self.input_ended:
            self.after_end += 1
            self.host.problem("input", "input object after end-of-input on pipeline %s" % self.pid)
        self.inputs.append(v)
        if self.waiting:
            self.run()

    def end_input(self) -> None:
        self.input_ended += 1
        if self.input_ended > 1:
            self.host.problem("input", "end-of-input signalled %d times on pipeline %s" % (self.input_ended, self.pid))
        if self.waiting:
            self.run()

    def answer(self, ci: int, msg: cx.Tree) -> None:
        if self.wait_ci == ci:
            self.wait_ci = None
            self.run()


def _labels(v: t.Any, out: t.Dict) -> None:
    if isinstance(v, dict):
        if v.get("label") is not None:
            out[v["label"]] = ["Obj", v]
        for x in v.values():
            _labels(x, out)
    elif isinstance(v, list):
        for x in v:
            _labels(x, out)


def _expand(v: t.Any, labels: t.Dict, seen: t.Set) -> t.Any:
    """The value on its own: references to objects outside it become those objects."""
    if isinstance(v, dict):
        if v.get("label") is not None:
            seen.add(v["label"])
        out = {}
        for k in sorted(v, key=lambda k: (k == ("ms" if not v.get("ms_first") else "props"), k)):
            out[k] = _expand(v[k], labels, seen)
        return out
    if isinstance(v, list):
        if len(v) == 2 and v[0] == "Ref" and v[1] not in seen:
            return _expand(labels[v[1]], labels, seen)
        return [_expand(x, labels, seen) for x in v]
    return v


def record(kind: str, p: t.Any) -> t.Tuple[str, cx.Tree]:
    inv = None
    if isinstance(p, dict):
        inv, p = p["inv"], p["msg"]
    if kind == "error":
        return "ERROR_RECORD", wire.error_record(p, inv=inv)
    if kind in ("debug", "verbose", "warning"):
        return kind.upper() + "_RECORD", wire.informational(kind, p, inv)
    if kind == "progress":
        return "PROGRESS_RECORD", wire.progress(*p)
    if kind == "information":
        return "INFORMATION_RECORD", wire.information(*p)
    raise kernel.HarnessError(kind)


class Pool:
    def __init__(self, shell: Shell, cfg: t.Dict) -> None:
        self.shell = shell
        self.host = shell.host
        self.cfg = cfg
        self.rx = wire.Reassembler()
        self.oid = cfg.get("oid0", 0)
        self.pipes: t.List[Pipe] = []
        self.min = 0
        self.max = 0
        self.init: t.Optional[cx.Tree] = None
        self.capability: t.Optional[cx.Tree] = None
        self.key: t.Optional[bytes] = None
        self.keys_made = 0
        self.public_keys = 0
        self.ci = cfg.get("ci0", 1)
        self.host_calls: t.List[t.Dict] = []
        self.answers: t.List[t.Dict] = []
        self.calls: t.List[t.Dict] = []  # pool-level requests in order
        self.messages: t.List[t.Tuple[str, str, t.Any]] = []  # every complete client message
        self.emitted: t.List[t.Tuple[str, t.Any]] = []  # pool-level emission log
        self.log: t.List[t.Tuple] = []  # the same with the stream each message went to; ("answer", call) for answers to calls
        self.avail_plan = list(cfg.get("avail", []))
        self.opened = False

    # -- outgoing
    def next_ci(self) -> int:
        self.ci += 1
        return self.ci

    def frag_size(self) -> int:
        spec = self.cfg.get("frag", 32768)
        if isinstance(spec, list):
            return self.host.rng.randint(spec[0], spec[1])
        return spec

    def emit(self, target: Target, mtype: str, pid: t.Optional[str], tree: t.Optional[cx.Tree], payload: t.Optional[bytes] = None) -> None:
        if payload is None:
            payload = cx.encode(tree, self.encrypt if self.key else None, self.cfg.get("share_tn", True))  # type: ignore[arg-type]
        self.emit_raw(target, mtype, pid, payload)

    def emit_raw(self, target: Target, mtype: str, pid: t.Optional[str], payload: bytes) -> None:
        self.oid += 1
        msg = wire.pack_message(mtype, self.shell.rpid, pid, payload, self.cfg.get("bom", False))
        frags = wire.split_message(self.oid, msg, self.frag_size)
        mut = self.host.frag_mutator
        if mut is not None:
            frags = mut(mtype, frags, self.oid)
        units = [(f, (self.oid, i, len(frags))) for i, f in enumerate(frags)]
        if self.cfg.get("interleave") and target.q and self.host.rng.random() < 0.5 and mtype not in ("PIPELINE_STATE", "RUNSPACEPOOL_STATE"):
            # let fragments of this object overlap the tail of the previous one (object completion order is preserved)
            last_oid = target.q[-1][1][0]
            j = len(target.q) - 1
            while j > 0 and target.q[j - 1][1][0] == last_oid:
                j -= 1
            if target.q[j][1][1] <= target.q[j][1][2] - 1 and len(target.q) - j > 1 and len(units) > 1:
                tail = target.q[j:]
                merged = tail[:-1] + units[:1] + tail[-1:] + units[1:]
                target.q[j:] = merged
                self.host.cover("interleaved_fragments")
                self.host.pump(target)
                return
        target.q.extend(units)
        self.host.pump(target)

    def do(self, spec: t.List, target: Target) -> None:
        """Emit one pool-level message described by spec on the given target."""
        op = spec[0]
        zero = None
        self.log.append((spec, target))
        if op == "event":
            self.emitted.append(("event", spec[1:]))
            self.emit(target, "USER_EVENT", zero, wire.user_event(*spec[1:]))
        elif op == "warning":
            self.emitted.append(("warning", spec[1]))
            self.emit(target, "WARNING_RECORD", zero, wire.informational("warning", spec[1]))
        elif op == "private":
            self.emitted.append(("private", spec[1]))
            self.emit(target, "APPLICATION_PRIVATE_DATA", zero, wire.app_private(spec[1]))
        elif op == "init":
            self.emitted.append(("init", spec[1:]))
            self.emit(target, "RUNSPACEPOOL_INIT_DATA", zero, cx.obj(ms=[("MinRunspaces", cx.I32(spec[1])), ("MaxRunspaces", cx.I32(spec[2]))]))
        elif op == "state":
            self.emit(target, "RUNSPACEPOOL_STATE", zero, wire.pool_state(spec[1], spec[2] if len(spec) > 2 else None))
        elif op == "keyreq":
            self.emitted.append(("keyreq", None))
            self.emit(target, "PUBLIC_KEY_REQUEST", zero, ["S", ""])
        elif op == "host":
            _, mi, name, args, expects = spec[:5]
            ci = self.next_ci()
            rec = {"ci": ci, "mi": mi, "name": name, "args": args, "expects": expects, "answers": [], "pid": None, "where": "pool"}
            self.host_calls.append(rec)
            self.emit(target, "RUNSPACEPOOL_HOST_CALL", zero, wire.host_call(ci, mi, name, args))
        elif op == "avail":
            self.emit(target, "RUNSPACE_AVAILABILITY", zero, wire.availability(spec[1], spec[2]))
        elif op == "avail_orphan":
            self.emit(target, "RUNSPACE_AVAILABILITY", zero, wire.availability(spec[1], spec[2]))
        else:
            raise kernel.HarnessError("pool step %r" % (spec,))

    # -- crypto (independent implementation on the cryptography primitives)
    def encrypt(self, text: str) -> str:
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

        data = text.encode("utf-16-le", "surrogatepass")
        pad = 16 - len(data) % 16
        enc = Cipher(algorithms.AES(self.key), modes.CBC(b"\0" * 16)).encryptor()
        return base64.b64encode(enc.update(data + bytes([pad]) * pad) + enc.finalize()).decode()

    def decrypt(self, text: str) -> str:
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

        raw = base64.b64decode(text)
        if not raw or len(raw) % 16:
            raise wire.WireError("secure string is not a whole number of cipher blocks")
        dec = Cipher(algorithms.AES(self.key), modes.CBC(b"\0" * 16)).decryptor()
        data = dec.update(raw) + dec.finalize()
        pad = data[-1]
        if not 1 <= pad <= 16 or data[-pad:] != bytes([pad]) * pad:
            raise wire.WireError("secure string has bad padding")
        return data[:-pad].decode("utf-16-le", "surrogatepass")

    def _session_key(self, blob: bytes) -> str:
        from cryptography.hazmat.primitives.asymmetric import padding, rsa

        if len(blob) != 276 or blob[:16] != b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00":
            raise wire.WireError("malformed public key blob")
        e = struct.unpack("<I", blob[16:20])[0]
        n = int.from_bytes(blob[20:], "little")
        if self.key is None or self.cfg.get("rekey"):
            self.key = self.host.sim.randbytes(32)
            self.keys_made += 1
        ct = rsa.RSAPublicNumbers(e, n).public_key().encrypt(self.key, padding.PKCS1v15())
        return base64.b64encode(b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00" + ct[::-1]).decode()

    # -- incoming
    def feed(self, data: bytes, cmd: t.Optional[str], stream: str, frags_only: bool = False) -> t.List[t.Tuple[str, str, t.Any]]:
        out = []
        for raw in self.rx.feed(data):
            mtype, rpid, pid, body = wire.unpack_message(raw)
            if rpid not in (self.shell.rpid, self.shell.id.upper()):
                raise wire.WireError("message for pool %s arrived at pool %s" % (rpid, self.shell.id))
            tree: t.Any = None
            if mtype == "END_OF_PIPELINE_INPUT":
                if body not in (b"",):
                    raise wire.WireError("end-of-input carries data")
            elif body:
                tree = cx.decode(body, self.decrypt if self.key else None)
            self.messages.append((mtype, pid, tree))
            self.host.sim.log("msg", mtype, pid[:8])
            out.append((mtype, pid, tree))
        return out

    def handle(self, msgs: t.List[t.Tuple[str, str, t.Any]], cmd: t.Optional[Pipe], stream: str) -> None:
        for mtype, pid, tree in msgs:
            self._one(mtype, pid, tree, cmd, stream)

    def _one(self, mtype: str, pid: str, tree: t.Any, cmd: t.Optional[Pipe], stream: str) -> None:
        h = self.host
        tgt = self.shell.target
        if mtype == "SESSION_CAPABILITY":
            self.capability = tree
        elif mtype == "INIT_RUNSPACEPOOL":
            self.init = tree
            self.min = cx.prim(cx.get(tree, "MinRunspaces"))
            self.max = cx.prim(cx.get(tree, "MaxRunspaces"))
            self._open()
        elif mtype == "PUBLIC_KEY":
            self.public_keys += 1
            h.effect("PublicKey", pool=self.shell.id)
            blob = base64.b64decode(cx.prim(cx.get(tree, "PublicKey")))
            sk = self._session_key(blob)
            mode = self.cfg.get("key", "ok")
            if mode == "never" or (isinstance(mode, list) and mode[0] == "skip" and self.public_keys <= mode[1]):
                return

            def send_key() -> None:
                self.emit(tgt, "ENCRYPTED_SESSION_KEY", None, cx.obj(ms=[("EncryptedSessionKey", cx.S(sk))]))

            if isinstance(mode, (int, float)):
                h.sim.after(mode, send_key)
            else:
                send_key()
        elif mtype in ("SET_MAX_RUNSPACES", "SET_MIN_RUNSPACES", "GET_AVAILABLE_RUNSPACES", "RESET_RUNSPACE_STATE"):
            self._call(mtype, tree)
        elif mtype in ("PIPELINE_HOST_RESPONSE", "RUNSPACEPOOL_HOST_RESPONSE"):
            ci = cx.prim(cx.get(tree, "ci"))
            rec = {"ci": ci, "pid": pid, "type": mtype, "mi": cx.get(tree, "mi"), "mr": cx.get(tree, "mr"), "stream": stream, "cmd": cmd.id if cmd else None}
            self.answers.append(rec)
            for c in self.host_calls:
                if c["ci"] == ci:
                    c["answers"].append(rec)
            for p in self.pipes:
                if p.pid == pid and mtype == "PIPELINE_HOST_RESPONSE":
                    p.answer(ci, tree)
            for hook in list(h.answer_hooks):
                hook(self, rec)
        elif mtype == "PIPELINE_INPUT":
            p = self._pipe(pid, cmd)
            p.feed(tree)
        elif mtype == "END_OF_PIPELINE_INPUT":
            self._pipe(pid, cmd).end_input()
        elif mtype in ("CREATE_PIPELINE", "GET_COMMAND_METADATA"):
            p = self._pipe(pid, cmd)
            if p.create is not None:
                raise wire.WireError("pipeline %s created twice" % pid)
            p.create = tree
            p.kind = mtype
            if h.cfg.get("by_name") and mtype == "CREATE_PIPELINE":
                cmds = cx.get(cx.get(tree, "PowerShell"), "Cmds")[1]["items"]
                p.plan = h._named(h.cfg.get("plans", []), cx.prim(cx.get(cmds[0], "Cmd")), [["end", "Completed"]])
            elif h.cfg.get("by_name"):
                p.plan = list(h.meta.pop(0) if h.meta else h.cfg.get("meta", [["out", ["Obj", {"tn": ["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo"], "props": [["Count", ["I32", 0]]]}]], ["end", "Completed"]]))
            h.effect("CreatePipeline", pid=pid, cmd=p.id)
            h.sim.after(self.cfg.get("start_delay", 0.0), p.start)
        elif mtype == "CONNECT_RUNSPACEPOOL":
            pass
        else:
            raise wire.WireError("unexpected client message " + mtype)

    def _pipe(self, pid: str, cmd: t.Optional[Pipe]) -> Pipe:
        if cmd is None:
            raise wire.WireError("pipeline message sent to the pool")
        if cmd.pid != pid:
            raise wire.WireError("message for pipeline %s sent to command of pipeline %s" % (pid, cmd.pid))
        return cmd

    def _open(self) -> None:
        cfg = self.cfg.get("open", {})
        tgt = self.shell.target
        h = self.host

        def cap() -> None:
            self.emit(tgt, "SESSION_CAPABILITY", None, wire.session_capability(h.cfg.get("proto", "2.3")))

        def rest() -> None:
            for extra in cfg.get("extra", []):
                self.do(extra, tgt)
            self.do(["private", cfg.get("private", [])], tgt)
            if cfg.get("never"):
                return
            if cfg.get("broken"):
                self.do(["state", "Broken", wire.error_record(cfg["broken"])], tgt)
            else:
                self.opened = True
                self.do(["state", "Opened"], tgt)

        h.sim.after(cfg.get("delay_cap", 0.0), cap)
        h.sim.after(cfg.get("delay_cap", 0.0) + cfg.get("delay", 0.0), rest)

    def _call(self, mtype: str, tree: t.Any) -> None:
        h = self.host
        ci = cx.prim(cx.get(tree, "ci" if mtype in ("GET_AVAILABLE_RUNSPACES", "RESET_RUNSPACE_STATE") else "CI"))
        plan = self.avail_plan.pop(0) if self.avail_plan else {}
        rec = {"type": mtype, "ci": ci, "plan": plan, "t": h.sim.now}
        self.calls.append(rec)
        h.effect("PoolCall", type=mtype, ci=ci)
        if mtype.startswith("SET_"):
            which = "MaxRunspaces" if "MAX" in mtype else "MinRunspaces"
            val = cx.prim(cx.get(tree, which))
            rec["value"] = val
            ok = plan.get("ok", True)
            if ok:
                if "MAX" in mtype:
                    self.max = val
                else:
                    self.min = val
            ans = cx.B(ok)
        elif mtype == "RESET_RUNSPACE_STATE":
            ans = cx.B(plan.get("ok", True))
        else:
            ans = ["I64", plan.get("count", self.max)]
        rec["answer"] = ans[1]
        tgt = self.shell.target

        def reply() -> None:
            for extra in plan.get("before", []):
                self.do(extra, tgt)
            if not plan.get("never"):
                rec["emitted"] = len(self.emitted)
                self.log.append((["answer", rec], tgt))
                self.emit(tgt, "RUNSPACE_AVAILABILITY", None, wire.availability(ci, ans))
                rec["seq"] = self.oid
            for extra in plan.get("after", []):
                self.do(extra, tgt)

        h.sim.after(plan.get("delay", 0.0), reply)


# ------------------------------------------------------------------------------------------- host


class Req:
    __slots__ = ("conn", "method", "path", "headers", "body", "t", "seq")

    def __init__(self, conn: net.Conn, method: str, path: str, headers: t.Dict[str, str], body: bytes, now: float) -> None:
        self.conn = conn
        self.method = method
        self.path = path
        self.headers = headers
        self.body = body
        self.t = now


class Proxy(net.Endpoint):
    """An HTTP proxy in front of one host: plain requests name the whole URL, TLS connections are tunnelled."""

    PORT = 3128

    def __init__(self, host: "Host") -> None:
        self.host = host
        host.sim.net.hosts[("proxy-" + re.sub("[^a-z0-9]", "-", host.name.lower()), self.PORT)] = self  # type: ignore[attr-defined]

    def accept(self, conn: net.Conn) -> t.Any:
        return self.host.accept(conn)

    def closed(self, conn: net.Conn) -> None:
        self.host.closed(conn)

    def data(self, conn: net.Conn, data: bytes) -> None:
        h = self.host
        where = "%s:%d" % ("[%s]" % h.name if ":" in h.name else h.name.lower(), h.port)
        if conn.state.get("tunnel"):
            h.data(conn, data)
            return
        buf = conn.state.setdefault("proxybuf", bytearray())
        buf += data
        if b"\r\n\r\n" not in buf:
            return
        head, rest = bytes(buf).split(b"\r\n\r\n", 1)
        first = head.split(b"\r\n", 1)[0].decode("latin-1")
        if h.cfg.get("ssl"):
            if not first.lower().startswith("connect %s " % where):
                h.problem("proxy", "a proxy for %s was asked %r" % (where, first))
                conn.server_close()
                return
            buf.clear()
            conn.state["tunnel"] = True
            conn.server_send(b"HTTP/1.1 200 Connection established\r\n\r\n")
            if rest:
                h.data(conn, rest)
            return
        if " http://%s/" % where not in first.lower():
            h.problem("proxy", "a proxy for %s was asked %r" % (where, first))
            conn.server_close()
            return
        # the rest of the connection carries requests of the same form
        conn.state["tunnel"] = True
        conn.state["absolute"] = True
        buf.clear()
        h.data(conn, head + b"\r\n\r\n" + rest)


class Host(net.Endpoint):
    """One WinRM endpoint."""

    def __init__(self, sim: kernel.Sim, cfg: t.Dict) -> None:
        import random

        self.sim = sim
        self.cfg = cfg
        self.name = cfg.get("name", "srv")
        if cfg.get("auth") == "credssp":
            _tls_context()  # written now, before a check takes the disk away
        self.rng = random.Random("host/%s/%s" % (sim.seed, self.name))
        self.port = cfg.get("port", 5985)
        sim.net.hosts[(self.name.lower(), self.port)] = self  # type: ignore[attr-defined]
        if cfg.get("proxy"):  # reachable through a proxy only
            del sim.net.hosts[(self.name.lower(), self.port)]  # type: ignore[attr-defined]
            Proxy(self)
        self.shells: t.Dict[str, Shell] = {}
        self.all_shells: t.List[Shell] = []
        self.requests: t.List[t.Dict] = []  # every complete SOAP request delivered
        self.http: t.List[t.Dict] = []  # every HTTP request
        self.effects: t.List[t.Dict] = []
        self.problems: t.List[t.Tuple[str, str]] = []
        self.counts: t.Dict[str, int] = {}
        self.faults = [dict(f) for f in cfg.get("faults", [])]
        self.meta: t.List[t.List] = list(cfg.get("metas", []))
        self.plans = list(cfg.get("plans", []))
        self.procs = list(cfg.get("procs", []))
        self.accepts = 0
        self.connect_plan = list(cfg.get("connect", []))  # verdicts for the first accepts
        self.script_hooks: t.Dict[str, t.Callable] = {}
        self.answer_hooks: t.List[t.Callable] = []
        self.frag_mutator: t.Optional[t.Callable] = None
        self.on_request: t.Optional[t.Callable[[t.Dict], None]] = None  # called as each request arrives
        self.on_fire: t.Optional[t.Callable[[t.Dict], None]] = None  # called at the moment a fault acts
        self.last_response: t.Optional[bytes] = None
        self.coverage: t.Dict[str, int] = {}
        self.silent_from: t.Optional[float] = None
        self.responses: t.List[t.Dict] = []

    # -- records
    def effect(self, kind: str, **kw: t.Any) -> None:
        self.effects.append(dict(kind=kind, t=self.sim.now, **kw))

    def problem(self, kind: str, text: str) -> None:
        self.problems.append((kind, text))
        self.sim.log("problem", kind, text)

    def cover(self, what: str) -> None:
        self.coverage[what] = self.coverage.get(what, 0) + 1

    def fire(self, f: t.Dict) -> None:
        self.sim.fired[f["kind"]] += 1
        self.sim.log("fault", f["kind"])
        if self.on_fire is not None:
            self.on_fire(f)

    def _named(self, plans: t.List, text: str, default: t.List) -> t.List:
        """The plan numbered by the first number in the command text."""
        m = re.search(r"\d+", text)
        i = int(m.group(0)) if m else len(plans)
        return list(plans[i]) if i < len(plans) else default

    # -- connections
    def accept(self, conn: net.Conn) -> t.Any:
        n = self.accepts
        self.accepts += 1
        v = self.connect_plan[n] if n < len(self.connect_plan) else None
        if v is None:
            for w in self.cfg.get("windows", []):
                if w["t0"] <= self.sim.now < w["t1"]:
                    v = [w.get("kind", "timeout")]
        if self.cfg.get("silent_from") is not None and self.sim.now >= self.cfg["silent_from"] and not self.cfg.get("silent_accept"):
            v = [self.cfg.get("silent_connect", "timeout")]
        if v and v[0] != "ok":
            self.sim.fired["connect_" + v[0]] += 1
            return v
        return None

    def arm_windows(self) -> None:
        for w in self.cfg.get("windows", []):
            if w.get("kill"):

                def kill(w=w) -> None:
                    for c in self.sim.net.conns:  # type: ignore[attr-defined]
                        if c.ep is self and not c.client_closed:
                            if w["kill"] == "rst":
                                c.server_reset()
                            else:
                                c.blackhole()
                    self.sim.fired["partition"] += 1

                self.sim.at(w["t0"], kill)

    def closed(self, conn: net.Conn) -> None:
        conn.state["gone"] = True

    def data(self, conn: net.Conn, data: bytes) -> None:
        st = conn.state
        if self.cfg.get("silent_from") is not None and self.sim.now >= self.cfg["silent_from"]:
            self.sim.fired["silence"] += 1
            conn.blackhole()
            return
        buf = st.setdefault("buf", bytearray())
        buf += data
        while True:
            req = self._parse_http(conn, buf)
            if req is None:
                return
            self._http(req)

    def _parse_http(self, conn: net.Conn, buf: bytearray) -> t.Optional[Req]:
        i = buf.find(b"\r\n\r\n")
        if i < 0:
            return None
        head = bytes(buf[:i]).decode("latin-1").split("\r\n")
        try:
            method, path, ver = head[0].split(" ")
        except ValueError:
            self.problem("http", "bad request line %r" % head[0])
            buf.clear()
            return None
        headers: t.Dict[str, str] = {}
        for line in head[1:]:
            k, _, v = line.partition(":")
            k = k.strip().lower()
            if k in headers and k in ("content-length", "authorization", "content-type"):
                self.problem("http", "duplicate header %s" % k)
            headers[k] = v.strip()
        if "transfer-encoding" in headers:
            self.problem("http", "unexpected transfer-encoding")
            buf.clear()
            return None
        n = int(headers.get("content-length", "0"))
        if len(buf) < i + 4 + n:
            return None
        body = bytes(buf[i + 4 : i + 4 + n])
        del buf[: i + 4 + n]
        return Req(conn, method, path, headers, body, self.sim.now)

    # -- http + auth
    def _http(self, req: Req) -> None:
        self.http.append(
            {"t": self.sim.now, "conn": req.conn.id, "auth": req.headers.get("authorization", ""), "len": len(req.body), "ctype": req.headers.get("content-type", ""), "body": req.body, "path": req.path, "method": req.method}
        )
        self.sim.log("http", req.conn.id, len(req.body), bool(req.headers.get("authorization")))
        if not req.conn.state.get("auth_done") and not self._auth(req):
            return
        if not req.body:
            self._reply(req, 200, {}, b"", clear=True)
            return
        wraps = self.cfg.get("encrypt", False)
        ctype = req.headers.get("content-type", "")
        encrypted = ctype.startswith("multipart/encrypted") or ctype.startswith("multipart/x-multi-encrypted")
        if encrypted:
            ctx = req.conn.state.get("ctx")
            if ctx is None:
                self.problem("crypt", "encrypted request without a security context")
                self._reply(req, 400, {}, b"", clear=True)
                return
            try:
                soap = self._decrypt(ctx, ctype, req.body)
            except BadRequest as e:
                self.sim.log("undecryptable", e.why)
                self.counts["undecryptable"] = self.counts.get("undecryptable", 0) + 1
                self._reply(req, 400, {}, b"", clear=True)
                return
            self.counts["decrypted"] = self.counts.get("decrypted", 0) + 1
        else:
            soap = req.body
            if wraps:
                self.problem("clear", "content sent in the clear although encryption is required")
                self._reply(req, 400, {}, b"", clear=True)
                return
        req.body = soap
        self._soap(req, soap)

    def _chal(self) -> str:
        return self.cfg.get("www", {"basic": 'Basic realm="WSMAN"', "ntlm": "Negotiate", "negotiate": "Negotiate", "credssp": "CredSSP"}.get(self.cfg.get("auth", "none"), "Negotiate"))

    def _deny(self, req: Req, token: t.Optional[str] = None, why: str = "") -> bool:
        self.counts["401"] = self.counts.get("401", 0) + 1
        hdr = {"WWW-Authenticate": token or self._chal()} if self._chal() or token else {}
        self._reply(req, 401, hdr, b"", clear=True)
        return False

    def _token(self, text: str) -> str:
        """The server's token, or what a broken server sends in its place."""
        f = self.cfg.get("token_fault")
        if not f or f.get("used"):
            return text
        if f.get("n", 1) > 1:
            f["n"] -= 1
            return text
        f["used"] = True
        self.fire({"kind": "token_" + f["how"], "on": "auth"})
        raw = bytearray(base64.b64decode(text))
        if f["how"] == "flip" and raw:
            raw[int(f["pos"] * len(raw)) % len(raw)] ^= 1 << f["bit"]
        elif f["how"] == "cut":
            del raw[int(f["pos"] * len(raw)) :]
        elif f["how"] == "noise":
            raw = bytearray(self.rng.randrange(256) for _ in range(40))
        elif f["how"] == "notb64":
            return text[:-3] + "\x7e"
        return base64.b64encode(bytes(raw)).decode()

    def _auth(self, req: Req) -> bool:
        mode = self.cfg.get("auth", "none")
        st = req.conn.state
        if mode == "none":
            return True
        hdr = req.headers.get("authorization", "")
        f = self._take_fault("auth")
        if f is not None:
            if not self._apply_pre(req, f):
                return False
        if mode == "basic":
            want = "Basic " + base64.b64encode(("%s:%s" % tuple(self.cfg["cred"])).encode("utf-8")).decode()
            ok = hdr == want or hdr == "Basic " + base64.b64encode(("%s:%s" % tuple(self.cfg["cred"])).encode("latin-1", "replace")).decode()
            if not ok or self.cfg.get("deny"):
                self.counts["auth_failed"] = self.counts.get("auth_failed", 0) + 1
                return self._deny(req)
            return True
        if mode == "certificate":
            ok = hdr == "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual" and st.get("client_cert") and st.get("client_cert") == self.cfg.get("client_cert")
            if not ok or st.get("key_password") != self.cfg.get("key_password") or self.cfg.get("deny"):
                self.counts["auth_failed"] = self.counts.get("auth_failed", 0) + 1
                return self._deny(req)
            return True
        m = re.match(r"^(CredSSP)\s+(\S+)$" if mode == "credssp" else r"^(Negotiate|Kerberos|NTLM)\s+(\S+)$", hdr, re.I)
        if not m:
            st.pop("ctx_wip", None)
            return self._deny(req)
        import spnego
        import spnego.exceptions

        try:
            token = base64.b64decode(m.group(2))
        except Exception:
            self.problem("auth", "undecodable token")
            return self._deny(req)
        ctx = st.get("ctx_wip")
        fresh = token[:1] == b"\x16" and token[5:6] == b"\x01" if mode == "credssp" else b"NTLMSSP\x00\x01\x00\x00\x00" in token
        if (ctx is None or fresh) and mode == "credssp":
            ctx = spnego.server(protocol="credssp", credssp_tls_context=_tls_context())
            st["ctx_wip"] = ctx
        elif ctx is None or fresh:
            proto = "ntlm" if token.startswith(b"NTLMSSP\x00") else "negotiate"
            kw: t.Dict[str, t.Any] = {}
            if self.cfg.get("ssl"):
                import spnego.channel_bindings

                cert, alg = net.certificate(self)
                data = b"tls-server-end-point:" + hashlib.new(alg, cert).digest()
                kw["channel_bindings"] = spnego.channel_bindings.GssChannelBindings(application_data=data)
            ctx = spnego.server(protocol=proto, **kw, options=spnego.NegotiateOptions.use_negotiate if proto == "negotiate" else spnego.NegotiateOptions.use_ntlm)
            st["ctx_wip"] = ctx
        st["legs"] = st.get("legs", 0) + 1
        scheme = m.group(1)
        try:
            out = ctx.step(token)
        except Exception as e:  # wrong credentials, malformed token
            self.sim.log("auth-failed", type(e).__name__)
            self.counts["auth_failed"] = self.counts.get("auth_failed", 0) + 1
            st.pop("ctx_wip", None)
            return self._deny(req)
        if not ctx.complete:
            return self._deny(req, "%s %s" % (scheme, self._token(base64.b64encode(out or b"").decode())))
        if self.cfg.get("deny"):
            self.sim.log("auth-denied")
            self.counts["auth_failed"] = self.counts.get("auth_failed", 0) + 1
            st.pop("ctx_wip", None)
            return self._deny(req)
        st.pop("ctx_wip", None)
        st["ctx"] = ctx
        st["auth_done"] = True
        st["user"] = ctx.client_principal
        self.counts["auth_ok"] = self.counts.get("auth_ok", 0) + 1
        self.sim.log("auth-ok")
        if out:
            st["final_token"] = "%s %s" % (scheme, base64.b64encode(out).decode())
        return True

    def _decrypt(self, ctx: t.Any, ctype: str, body: bytes) -> bytes:
        m = re.search(r'boundary="([^"]+)"', ctype)
        if not m:
            raise BadRequest(400, "no boundary")
        proto = "CredSSP" if self.cfg.get("auth") == "credssp" else "SPNEGO"
        if ctype.count("HTTP-%s-session-encrypted" % proto) != 1 or body.count(b"HTTP-%s-session-encrypted" % proto.encode()) < 1:
            self.problem("crypt", "content type %r for %s" % (ctype, proto))
        b = ("--" + m.group(1)).encode()
        if not body.endswith(b + b"--\r\n"):
            raise BadRequest(400, "no closing boundary")
        body = body[: -len(b) - 4]
        out = b""
        pos = 0
        nparts = 0
        while pos < len(body):
            h1 = body.find(b + b"\r\n", pos)
            if h1 != pos:
                raise BadRequest(400, "junk before part")
            hend = body.find(b + b"\r\n", h1 + len(b) + 2)
            if hend < 0:
                raise BadRequest(400, "missing data part")
            head = body[h1 + len(b) + 2 : hend]
            lm = re.search(rb"OriginalContent: type=application/soap\+xml;charset=UTF-8;Length=(\d+)\r\n", head)
            if not lm:
                raise BadRequest(400, "no length")
            length = int(lm.group(1))
            dstart = hend + len(b) + 2
            ch = b"\tContent-Type: application/octet-stream\r\n"
            if body[dstart : dstart + len(ch)] != ch:
                raise BadRequest(400, "no octet-stream header")
            dstart += len(ch)
            # data runs to the next part header (searched structurally) or the end
            nxt = body.find(b + b"\r\n\tContent-Type: application/HTTP-", dstart)
            data = body[dstart : nxt if nxt >= 0 else len(body)]
            pos = nxt if nxt >= 0 else len(body)
            hl = struct.unpack("<i", data[:4])[0]
            try:
                plain = ctx.unwrap_winrm(data[4 : 4 + hl], data[4 + hl :])
            except Exception as e:
                raise BadRequest(400, "unwrap failed: %s" % type(e).__name__)
            nparts += 1
            if len(plain) > 16384 and self.cfg.get("auth") == "credssp":
                self.problem("crypt", "a part of %d bytes does not fit one TLS record" % len(plain))
            if len(plain) != length:
                raise BadRequest(400, "length mismatch")
            out += plain
        self.counts["parts"] = self.counts.get("parts", 0) + nparts
        return out

    def _encrypt(self, ctx: t.Any, soap: bytes) -> t.Tuple[str, bytes]:
        style = self.cfg.get("mime", "std")
        dash = b"-- " if style == "exchange" else b"--"
        credssp = self.cfg.get("auth") == "credssp"
        proto = self.cfg.get("mime_proto", "application/HTTP-%s-session-encrypted" % ("CredSSP" if credssp else "SPNEGO"))
        size = self.cfg.get("enc_part", 0) or (16384 if credssp else len(soap)) or 1
        out = b""
        n = 0
        for i in range(0, max(1, len(soap)), size):
            part = soap[i : i + size]
            hdr, data, pad = ctx.wrap_winrm(part)
            bl = BOUNDARY.encode()
            out += dash + bl + b"\r\n\tContent-Type: " + proto.encode() + b"\r\n"
            out += b"\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length=%d\r\n" % (len(part) + pad)
            out += dash + bl + b"\r\n\tContent-Type: application/octet-stream\r\n"
            out += struct.pack("<i", len(hdr)) + hdr + data
            n += 1
        out += dash + BOUNDARY.encode() + b"--\r\n"
        kind = "multipart/x-multi-encrypted" if n > 1 else "multipart/encrypted"
        return '%s;protocol="%s";boundary="%s"' % (kind, proto, BOUNDARY), out

    # -- replies
    def _reply(self, req: Req, status: int, headers: t.Dict[str, str], body: bytes, clear: bool = False, f: t.Optional[t.Dict] = None, extra_delay: float = 0.0) -> None:
        conn = req.conn
        hdrs = dict(headers)
        tok = conn.state.pop("final_token", None)
        if tok and status != 401:
            hdrs.setdefault("WWW-Authenticate", tok)
        enc = bool(body) and not clear and self.cfg.get("encrypt") and conn.state.get("ctx") is not None
        if f is not None and f["kind"] == "clear_resp":
            enc = False
            self.fire(f)
        if enc:
            ctype, body = self._encrypt(conn.state["ctx"], body)
            if f is not None and f["kind"] == "tamper":
                body = self._tamper(body, f)
                self.fire(f)
            hdrs["Content-Type"] = ctype
        elif body:
            hdrs.setdefault("Content-Type", "application/soap+xml;charset=UTF-8")
        phrase = {200: "OK", 401: "Unauthorized", 400: "Bad Request", 500: "Internal Server Error"}.get(status, "Status")
        hdrs["Content-Length"] = str(len(body))
        if self.cfg.get("conn_close"):
            hdrs["Connection"] = "close"
        if f is not None and f["kind"] == "redirect":
            hdrs["Location"] = f.get("to", "/other")
        head = "HTTP/1.1 %d %s\r\n" % (status, phrase) + "".join("%s: %s\r\n" % kv for kv in hdrs.items()) + "\r\n"
        raw = head.encode("latin-1") + body
        self._post(req, raw, body, f, extra_delay)

    def _tamper(self, body: bytes, f: t.Dict) -> bytes:
        how = f.get("how", "flip")
        b = bytearray(body)
        mark = b"application/octet-stream\r\n"
        i = body.index(mark) + len(mark)
        if how == "flip":
            end = re.search(rb"--\s*" + BOUNDARY.encode(), body[i:])  # inside the first part
            lo, hi = i + 4 + 16, i + end.start() + 1 if end else len(body)
            k = lo + int(f.get("pos", 0.5) * max(0, hi - lo - 1))
            b[k] ^= 1 << f.get("bit", 0)
        elif how == "sig":
            k = i + 4 + 4 + int(f.get("pos", 0.5) * 7)
            b[k] ^= 1 << f.get("bit", 0)
        elif how == "length":
            m = re.search(rb"Length=(\d+)", body)
            assert m
            n = int(m.group(1)) + f.get("delta", 1)
            return body[: m.start(1)] + str(n).encode() + body[m.end(1) :]
        return bytes(b)

    def _post(self, req: Req, raw: bytes, body: bytes, f: t.Optional[t.Dict], extra: float) -> None:
        conn = req.conn
        if f is None:
            conn.server_send(raw, extra)
            if self.cfg.get("conn_close"):
                self.sim.after(extra + 0.05, conn.server_close)
            idle = self.cfg.get("idle_close")
            if idle:
                mark = object()
                conn.state["last"] = mark

                def maybe() -> None:
                    if conn.state.get("last") is mark and not conn.server_closed:
                        self.sim.fired["idle_close"] += 1
                        conn.server_close()

                self.sim.after(idle + extra, maybe)
            return
        k = f["kind"]
        if k == "drop_resp":
            self.fire(f)
            conn.blackhole()
        elif k == "rst_after":
            self.fire(f)
            conn.server_reset()
        elif k == "fin_after":  # processed, connection closed without an answer
            self.fire(f)
            conn.server_close()
        elif k == "delay_resp":
            self.fire(f)
            conn.server_send(raw, extra + f["secs"])
        elif k == "close_after":
            self.fire(f)
            conn.server_send(raw, extra)
            self.sim.after(extra + f.get("secs", 0.5), conn.server_close)
        elif k == "dead_after":  # answered, then the connection silently dies
            self.fire(f)
            conn.server_send(raw, extra)
            self.sim.after(extra + 0.5, conn.blackhole)
        elif k == "trunc_resp":
            self.fire(f)
            cut = len(raw) - max(1, int(len(body) * f.get("frac", 0.5)))
            conn.server_send(raw[:cut], extra)
            if f.get("how", "fin") == "fin":
                conn.server_close()
            elif f["how"] == "rst":
                self.sim.after(extra + 0.2, conn.server_reset)
            else:
                self.sim.after(extra + 0.2, conn.blackhole)
        elif k == "dup_resp":
            self.fire(f)
            conn.server_send(raw, extra)
            conn.server_send(raw, extra + f.get("secs", 0.3))
        elif k == "reauth_after":  # the server forgets the authentication of this connection
            self.fire(f)
            conn.server_send(raw, extra)
            conn.state.pop("auth_done", None)
            conn.state.pop("ctx", None)
        else:
            conn.server_send(raw, extra)

    # -- faults
    def _take_fault(self, cls: str, sub: str = "") -> t.Optional[t.Dict]:
        key = cls
        self.counts["n:" + key] = self.counts.get("n:" + key, 0) + 1
        n = self.counts["n:" + key]
        anyn = self.counts["n:*"] = self.counts.get("n:*", 0) + 1
        for f in self.faults:
            if f.get("used"):
                continue
            k = anyn if f["on"] == "*" else n
            if f["on"] in (cls, "*") and f["n"] <= k < f["n"] + f.get("times", 1):
                if f["n"] + f.get("times", 1) - 1 <= k:
                    f["used"] = True
                return f
        return None

    def arm(self, f: t.Dict) -> t.Dict:
        """Add a fault whose n counts from now."""
        f = dict(f)
        f["n"] = f.get("n", 1) + self.counts.get("n:" + f["on"], 0)
        self.faults.append(f)
        return f

    def _apply_pre(self, req: Req, f: t.Dict) -> bool:
        """Faults that act before processing. False: the request has been consumed."""
        k = f["kind"]
        conn = req.conn
        if k == "drop_req":
            self.fire(f)
            conn.blackhole()
            return False
        if k == "rst_before":
            self.fire(f)
            conn.server_reset()
            return False
        if k == "fin_before":
            self.fire(f)
            conn.server_close()
            return False
        if k == "http_err":
            self.fire(f)
            self._reply(req, f["status"], {"Content-Type": f.get("ctype", "text/html")} if f.get("body") else {}, f.get("body", "").encode(), clear=f.get("clear", True))
            return False
        if k == "redirect":
            self._reply(req, f.get("status", 302), {}, b"", clear=True, f=f)
            self.fire(f)
            return False
        return True

    # -- soap
    def _soap(self, req: Req, soap: bytes) -> None:
        try:
            root = ET.fromstring(soap)
        except ET.ParseError as e:
            self.problem("soap", "request is not well-formed XML: %s" % e)
            self._reply(req, 400, {}, b"", clear=True)
            return
        header = root.find(q("s", "Header"))
        body = root.find(q("s", "Body"))
        if header is None or body is None:
            self.problem("soap", "no Header or Body")
            self._reply(req, 400, {}, b"", clear=True)
            return

        def h(p: str, n: str) -> str:
            el = header.find(q(p, n))  # type: ignore[union-attr]
            return (el.text or "") if el is not None else ""

        action = h("wsa", "Action").rsplit("/", 1)[-1]
        msgid = h("wsa", "MessageID")
        op = re.match(r"^PT([0-9.]+)S$", h("wsman", "OperationTimeout"))
        rec = {
            "t": self.sim.now,
            "action": action,
            "msgid": msgid,
            "size": len(soap),
            "limit": int(h("wsman", "MaxEnvelopeSize") or 0),
            "optimeout": float(op.group(1)) if op else None,
            "uri": h("wsman", "ResourceURI"),
            "session": h("wsmv", "SessionId"),
            "to": h("wsa", "To"),
            "shell": "",
            "conn": req.conn.id,
            "soap": soap,
            "encrypted": req.headers.get("content-type", "").startswith("multipart/"),
        }
        for sel in header.findall("%s/%s" % (q("wsman", "SelectorSet"), q("wsman", "Selector"))):
            if sel.attrib.get("Name") == "ShellId":
                rec["shell"] = (sel.text or "").upper()
        rec["options"] = {o.attrib.get("Name"): (o.text or "") for o in header.findall("%s/%s" % (q("wsman", "OptionSet"), q("wsman", "Option")))}
        if not msgid or op is None or not rec["limit"]:
            self.problem("soap", "request lacks MessageID, OperationTimeout or MaxEnvelopeSize")
        same = [r for r in self.requests if r["msgid"] == msgid]
        rec["repeat"] = len(same)
        if same:
            if action != "Receive":
                self.problem("dup", "%s request delivered again with MessageID %s" % (action, msgid))
            elif same[0]["soap"] != soap:
                self.problem("msgid", "MessageID %s reused for a different request" % msgid)
        self.requests.append(rec)
        self.sim.log("soap", action, rec["shell"][:8], rec["size"], rec["repeat"])
        if self.on_request is not None:
            self.on_request(rec)
        self.counts[action] = self.counts.get(action, 0) + 1
        if rec["size"] > rec["limit"]:
            self.problem("envelope", "%s request of %d bytes exceeds the %d byte envelope it declares" % (action, rec["size"], rec["limit"]))
        f = self._take_fault(action)
        if f is not None:
            rec["fault"] = f["kind"]
            if not self._apply_pre(req, f):
                return
            if f["kind"] == "fault":
                self.fire(f)
                self._fault_reply(req, msgid, Fault(**f["args"]), None)
                return
            if f["kind"] == "slow_req":
                self.fire(f)
                self.sim.after(f["secs"], lambda: self._dispatch(req, rec, action, msgid, header, body, None))
                return
            if f["kind"] == "garbage_200":
                self.fire(f)
                self._reply(req, f.get("status", 200), {}, f["body"].encode())
                return
        self._dispatch(req, rec, action, msgid, header, body, f)

    def _dispatch(self, req: Req, rec: t.Dict, action: str, msgid: str, header: t.Any, body: t.Any, f: t.Optional[t.Dict]) -> None:
        rec["executed"] = True
        size_max = self.cfg.get("max_envelope")
        try:
            if size_max and rec["size"] > size_max:
                self.problem("envelope", "%s request of %d bytes exceeds the server's %d byte limit" % (action, rec["size"], size_max))
                raise Fault(2150858806, "envelope too large")
            fn = getattr(self, "_do_" + action, None)
            if fn is None:
                raise Fault(2150858776, "unsupported action " + action)
            res = fn(req, rec, msgid, header, body, f)
        except Fault as e:
            self._fault_reply(req, msgid, e, f)
            return
        except (wire.WireError, cx.CliXmlError) as e:
            self.problem("psrp", "%s: %s" % (action, e))
            self._fault_reply(req, msgid, Fault(2150859001, "PSRP protocol error: %s" % e), f)
            return
        if res is None:
            return  # deferred
        self._soap_reply(req, msgid, action, res, f)

    def envelope(self, relates: t.Optional[str], action: str, inner: str) -> bytes:
        rel = "<wsa:RelatesTo>%s</wsa:RelatesTo>" % escape(relates) if relates is not None else ""
        mid = "uuid:" + str(uuid.UUID(bytes=self.rng.randbytes(16), version=4)).upper()
        return (
            '<s:Envelope xml:lang="en-US" %s><s:Header><wsa:Action>%s</wsa:Action><wsa:MessageID>%s</wsa:MessageID>'
            "<wsa:To>http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous</wsa:To>%s</s:Header><s:Body>%s</s:Body></s:Envelope>"
            % (_NSDECL, action, mid, rel, inner)
        ).encode("utf-8")

    def _soap_reply(self, req: Req, msgid: str, action: str, inner: str, f: t.Optional[t.Dict]) -> None:
        rel: t.Optional[str] = msgid
        data: t.Optional[bytes] = None
        if f is not None and f["kind"] == "bad_relates":
            how = f.get("how", "other")
            self.fire(f)
            if how == "none":
                rel = None
            elif how == "empty":
                rel = ""
            elif how == "stale" and self.last_response is not None and msgid.encode() not in self.last_response:
                data = self.last_response
            elif how == "prefix":
                rel = msgid[:-1]
            elif how == "lower":
                rel = msgid.lower()
            elif how == "nouuid":
                rel = msgid[5:]
            elif how == "prev" and any(r["msgid"] != msgid for r in self.requests):
                rel = [r["msgid"] for r in self.requests if r["msgid"] != msgid][-1]
            else:
                rel = "uuid:" + str(uuid.UUID(bytes=self.rng.randbytes(16), version=4)).upper()
        if data is None:
            data = self.envelope(rel, action + "Response", inner)
        if f is None or f["kind"] != "bad_relates":
            self.last_response = data
        self.responses.append({"t": self.sim.now, "msgid": msgid, "action": action, "fault": None})
        self._reply(req, 200, {}, data, f=f, extra_delay=self.cfg.get("think", 0.0))

    def fault_xml(self, msgid: str, e: Fault) -> bytes:
        prov = ""
        msg = escape(e.reason)
        if e.provider:
            prov = '<f:ProviderFault provider="%s" path="%s">%s</f:ProviderFault>' % (attr(e.provider[0]), attr(e.provider[1]), escape(e.provider[2]))
        detail = ""
        if e.detail:
            detail = '<s:Detail><f:WSManFault Code="%s" Machine="%s"><f:Message>%s%s</f:Message></f:WSManFault></s:Detail>' % (attr(str(e.code)), attr(e.machine), "" if prov else msg, prov)
        inner = "<s:Fault><s:Code><s:Value>s:Receiver</s:Value><s:Subcode><s:Value>%s</s:Value></s:Subcode></s:Code><s:Reason><s:Text xml:lang=\"en-US\">%s</s:Text></s:Reason>%s</s:Fault>" % (
            e.subcode,
            msg,
            detail,
        )
        return self.envelope(msgid, "http://schemas.dmtf.org/wbem/wsman/1/wsman/fault", inner)

    def _fault_reply(self, req: Req, msgid: str, e: Fault, f: t.Optional[t.Dict]) -> None:
        self.responses.append({"t": self.sim.now, "msgid": msgid, "action": "Fault", "fault": e.code})
        self.sim.log("wsfault", e.code)
        self._reply(req, e.status, {}, self.fault_xml(msgid, e), f=f)

    # -- shell operations
    def _shell(self, rec: t.Dict, need: str = "Connected") -> Shell:
        sh = self.shells.get(rec["shell"])
        if sh is None or not (sh.uri == rec["uri"] or rec["action"] == "Get" and rec["uri"] == ENUM_SHELL):
            raise Fault(E_SELECTORS, "The request contained an invalid selector for the resource.", subcode="w:InvalidSelectors")
        if need and sh.state != need:
            raise Fault(2150859113, "The shell is in state %s" % sh.state)
        return sh

    def _cmd(self, sh: Shell, cid: t.Optional[str]) -> t.Any:
        c = sh.commands.get((cid or "").upper())
        if c is None:
            raise Fault(E_SELECTORS, "no such command %s" % cid, subcode="w:InvalidSelectors")
        return c

    def _do_Create(self, req, rec, msgid, header, body, f):
        el = body.find(q("rsp", "Shell"))
        if el is None:
            raise wire.WireError("Create without Shell")
        uri = rec["uri"]
        sid = el.attrib.get("ShellId") or str(uuid.UUID(bytes=self.rng.randbytes(16), version=4))
        rpid = sid = sid.upper()
        if self.cfg.get("own_shell_ids"):  # like servers of the first version, which ignore the client's wish
            sid = str(uuid.UUID(bytes=self.rng.randbytes(16), version=4)).upper()
        if sid in self.shells:
            raise Fault(2150858752, "shell exists")
        sh = Shell(self, sid, uri)
        sh.rpid = rpid
        sh.session = rec["session"]
        sh.info = {c.tag.split("}")[1]: c.text for c in el if c.text}
        env = el.find(q("rsp", "Environment"))
        if env is not None:
            sh.env = [(v.attrib["Name"], v.text or "") for v in env]
        sh.info["options"] = rec["options"]
        self.effect("Create", shell=sid, uri=uri, msgid=msgid)
        self.shells[sid] = sh
        self.all_shells.append(sh)
        if sh.kind == "ps":
            cxml = el.find(q("pwsh", "creationXml"))
            if cxml is None or not cxml.text:
                raise wire.WireError("no creationXml")
            sh.pool = Pool(sh, self.cfg.get("pool", {}))
            sh.pool.handle(sh.pool.feed(base64.b64decode(cxml.text), None, "creation"), None, "creation")
        sh.info.setdefault("InputStreams", "")
        return (
            "<wst:ResourceCreated><wsa:Address>%s</wsa:Address><wsa:ReferenceParameters><wsman:ResourceURI>%s</wsman:ResourceURI>"
            '<wsman:SelectorSet><wsman:Selector Name="ShellId">%s</wsman:Selector></wsman:SelectorSet></wsa:ReferenceParameters></wst:ResourceCreated>'
            "<rsp:Shell>%s</rsp:Shell>" % (rec["to"], uri, sid, self._shell_fields(sh))
        )

    def _shell_fields(self, sh: Shell) -> str:
        return (
            "<rsp:ShellId>%s</rsp:ShellId><rsp:ResourceUri>%s</rsp:ResourceUri><rsp:Owner>DOM\\user</rsp:Owner><rsp:ClientIP>10.0.0.1</rsp:ClientIP>"
            "<rsp:IdleTimeOut>PT7200.000S</rsp:IdleTimeOut><rsp:InputStreams>%s</rsp:InputStreams><rsp:OutputStreams>%s</rsp:OutputStreams>"
            "<rsp:ShellRunTime>P0DT0H0M1S</rsp:ShellRunTime><rsp:ShellInactivity>P0DT0H0M1S</rsp:ShellInactivity>%s"
            % (sh.id, escape(sh.uri), sh.info.get("InputStreams", ""), sh.info.get("OutputStreams", ""), "")
        )

    def _do_Delete(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec, "")
        self.effect("Delete", shell=sh.id, msgid=msgid)
        sh.deleted = True
        del self.shells[sh.id]
        for c in sh.all_commands:
            c.plan = []
        return ""

    def _do_Get(self, req, rec, msgid, header, body, f):
        if rec["uri"].endswith("/wsman/1/config"):
            kb = self.cfg.get("max_kb", 500)
            return (
                '<cfg:Config xmlns:cfg="http://schemas.microsoft.com/wbem/wsman/1/config"><cfg:MaxEnvelopeSizekb>%d</cfg:MaxEnvelopeSizekb>'
                "<cfg:MaxTimeoutms>60000</cfg:MaxTimeoutms><cfg:MaxBatchItems>32000</cfg:MaxBatchItems></cfg:Config>" % kb
            )
        sh = self._shell(rec, "")
        d = self.cfg.get("get_delay")
        state = self.cfg.get("get_state") or ("Disconnected" if sh.state == "Disconnected" else "Connected")
        inner = "<rsp:Shell>%s<rsp:State>%s</rsp:State></rsp:Shell>" % (self._shell_fields(sh), state)
        if d:
            if rec["optimeout"] is not None and d > rec["optimeout"]:
                self.sim.after(rec["optimeout"], lambda: self._fault_reply(req, msgid, Fault(E_OPTIMEOUT, "operation timed out", subcode="w:TimedOut"), f))
            else:
                self.sim.after(d, lambda: self._soap_reply(req, msgid, "Get", inner, f))
            return None
        return inner

    def _do_Command(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec)
        cl = body.find(q("rsp", "CommandLine"))
        cid = cl.attrib.get("CommandId")
        if cid and cid.upper() in sh.commands:
            raise Fault(2150858843, "command id in use")
        own = self.cfg.get("own_cmd_ids", False)
        if own or not cid:
            cid = str(uuid.UUID(bytes=self.rng.randbytes(16), version=4))
        cid = cid.upper()
        cmdtext = cl.find(q("rsp", "Command")).text or ""
        args = [a.text or "" for a in cl.findall(q("rsp", "Arguments"))]
        self.effect("Command", shell=sh.id, cmd=cid, text=cmdtext, msgid=msgid)
        if sh.kind == "cmd":
            plan = self.procs.pop(0) if self.procs else [["end", 0]]
            if self.cfg.get("by_name"):
                plan = self._named(self.cfg.get("procs", []), cmdtext, [["end", 0]])
            p = Process(sh, cid, cmdtext, args, plan)
            p.options = rec["options"]  # type: ignore[attr-defined]
            sh.commands[cid] = p
            sh.all_commands.append(p)
            self.sim.after(0.0, p.run)
        else:
            if len(args) != 1:
                raise wire.WireError("PSRP command without its first fragment")
            data = base64.b64decode(args[0])
            given = (cl.attrib.get("CommandId") or "").upper()
            plan = self.plans.pop(0) if self.plans else [["end", "Completed"]]
            pool = sh.pool
            assert pool is not None
            pipe = Pipe(pool, cid, given or cid, plan)
            pool.pipes.append(pipe)
            sh.commands[cid] = pipe
            sh.all_commands.append(pipe)
            pool.handle(pool.feed(data, cid, "command"), pipe, "command")
        return "<rsp:CommandResponse><rsp:CommandId>%s</rsp:CommandId></rsp:CommandResponse>" % cid

    def _do_Send(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec)
        streams = body.findall("%s/%s" % (q("rsp", "Send"), q("rsp", "Stream")))
        if not streams:
            raise wire.WireError("Send without Stream")
        for st in streams:
            data = base64.b64decode(st.text or "", validate=True)
            cid = st.attrib.get("CommandId")
            end = st.attrib.get("End", "false").lower() == "true"
            self.effect("Send", shell=sh.id, cmd=cid, n=len(data), msgid=msgid)
            if sh.kind == "cmd":
                self._cmd(sh, cid).feed(data, end)
            else:
                assert sh.pool is not None
                cmd = self._cmd(sh, cid) if cid is not None else None
                sh.pool.handle(sh.pool.feed(data, cid, st.attrib["Name"]), cmd, st.attrib["Name"])
        return "<rsp:SendResponse/>"

    def _do_Signal(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec)
        sg = body.find(q("rsp", "Signal"))
        cid = sg.attrib.get("CommandId", "")
        code = sg.find(q("rsp", "Code")).text or ""
        self.effect("Signal", shell=sh.id, cmd=cid.upper(), code=code, msgid=msgid)
        c = self._cmd(sh, cid)
        if sh.kind == "cmd":
            c.signal(code)
        else:
            c.signals.append(code)
            if code.endswith("powershell/signal/ctrl_c") or code.endswith("ctrl_c"):
                c.finish("Stopped")
            elif code.endswith("Terminate"):
                c.released = True
                c.plan = []
                if c.state == "Running":
                    c.state = "Stopped"
                sh.commands.pop(c.id, None)
        return "<rsp:SignalResponse/>"

    def _do_Disconnect(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec)
        self.effect("Disconnect", shell=sh.id, msgid=msgid)
        sh.state = "Disconnected"
        for tg in [sh.target] + [c.target for c in sh.commands.values()]:
            if tg.pending is not None:
                tg.pending.alive = False
                tg.pending = None
        return "<rsp:DisconnectResponse/>"

    def _do_Reconnect(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec, "")
        if rec["session"] != sh.session:
            raise Fault(2150859114, "reconnect from a different session")
        self.effect("Reconnect", shell=sh.id, msgid=msgid)
        sh.state = "Connected"
        return "<rsp:ReconnectResponse/>"

    def _do_Connect(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec, "")
        el = body.find(q("rsp", "Connect"))
        if el is not None and el.attrib.get("CommandId"):
            if sh.state != "Connected":
                raise Fault(2150859113, "shell is not connected")
            c = self._cmd(sh, el.attrib["CommandId"])
            self.effect("ConnectCommand", shell=sh.id, cmd=c.id, msgid=msgid)
            c.connected = True
            return "<rsp:ConnectResponse/>"
        if sh.state != "Disconnected":
            raise Fault(2150859113, "shell is not disconnected")
        cxml = el.find(q("pwsh", "connectXml")) if el is not None else None
        if cxml is None or sh.pool is None:
            raise wire.WireError("Connect without connectXml")
        pool = sh.pool
        rx, pool.rx = pool.rx, wire.Reassembler()
        msgs = pool.feed(base64.b64decode(cxml.text or ""), None, "connect")
        if [m[0] for m in msgs] != ["SESSION_CAPABILITY", "CONNECT_RUNSPACEPOOL"]:
            raise wire.WireError("connectXml carries %r" % [m[0] for m in msgs])
        self.effect("Connect", shell=sh.id, msgid=msgid)
        sh.state = "Connected"
        sh.session = rec["session"]
        tmp = Target()
        # a new client starts with whole objects
        for tg in [sh.target] + [c.target for c in sh.commands.values()]:
            tg.q[:0] = tg.cut
            tg.cut = []
            tg.replay.clear()
        save = pool.cfg
        pool.cfg = dict(save, interleave=False)
        pool.emit(tmp, "SESSION_CAPABILITY", None, wire.session_capability(self.cfg.get("proto", "2.3")))
        pool.do(["init", pool.min, pool.max], tmp)
        pool.cfg = save
        blob = b"".join(u[0] for u in tmp.q)

        def rest() -> None:
            pool.do(["private", save.get("open", {}).get("private", [])], sh.target)
            pool.do(["state", "Opened"], sh.target)

        # a client that connects asks for the pool's messages once: they come in one response unless told otherwise
        sh.target.flush = not save.get("connect_split")
        self.sim.after(save.get("connect_delay", 0.0), rest)
        return '<rsp:ConnectResponse><pwsh:connectResponseXml>%s</pwsh:connectResponseXml></rsp:ConnectResponse>' % base64.b64encode(blob).decode()

    def _do_Enumerate(self, req, rec, msgid, header, body, f):
        en = body.find(q("wsen", "Enumerate"))
        if rec["uri"] == ENUM_SHELL:
            items = "".join("<rsp:Shell>%s<rsp:State>%s</rsp:State></rsp:Shell>" % (self._shell_fields(s), s.state) for s in self.shells.values())
        else:
            sel = en.find(".//%s" % q("wsman", "Selector"))
            sh = self.shells.get((sel.text or "").upper()) if sel is not None else None
            items = ""
            if sh is not None:
                items = "".join("<rsp:Command><rsp:ShellId>%s</rsp:ShellId><rsp:CommandId>%s</rsp:CommandId><rsp:State>Running</rsp:State></rsp:Command>" % (sh.id, c.id) for c in sh.commands.values())
        return "<wsen:EnumerateResponse><wsman:Items>%s</wsman:Items><wsman:EndOfSequence/></wsen:EnumerateResponse>" % items

    # -- receive
    def _do_Receive(self, req, rec, msgid, header, body, f):
        sh = self._shell(rec)
        ds = body.find("%s/%s" % (q("rsp", "Receive"), q("rsp", "DesiredStream")))
        cid = ds.attrib.get("CommandId")
        owner = self._cmd(sh, cid) if cid is not None else None
        tg = owner.target if owner is not None else sh.target
        rec["cmd"] = cid
        tg.polls += 1
        if msgid in tg.replay:
            status, data = tg.replay[msgid]
            self.cover("receive_replayed")
            self._recv_reply(req, msgid, status, data, f)
            return None
        if tg.pending is not None and tg.pending.msgid == msgid:
            tg.pending.waiters.append((req, f))
            self.cover("receive_reattached")
            return None
        if tg.pending is not None:
            tg.pending.alive = False
        p = Pending(msgid, req.conn, ds.text or "", 0)
        p.waiters.append((req, f))
        p.cid = owner.id if owner is not None else None  # type: ignore[attr-defined]
        p.ps = sh.kind == "ps"  # type: ignore[attr-defined]
        tg.pending = p

        def timeout() -> None:
            if tg.pending is p and p.alive:
                self._answer(tg, p, 500, self.fault_xml(msgid, Fault(E_OPTIMEOUT, "The WS-Management service cannot complete the operation within the time specified in OperationTimeout.", subcode="w:TimedOut", provider=None)), E_OPTIMEOUT)

        self.sim.after(rec["optimeout"] or 60.0, timeout)
        self.sim.after(min(self.cfg.get("coalesce", 0.0), 0.4 * (rec["optimeout"] or 60.0)), lambda: self.pump(tg))
        return None

    def _answer(self, tg: Target, p: Pending, status: int, data: bytes, fault: t.Optional[int]) -> None:
        tg.pending = None
        p.alive = False
        tg.replay = {p.msgid: (status, data)}
        self.responses.append({"t": self.sim.now, "msgid": p.msgid, "action": "Receive", "fault": fault})
        for req, f in p.waiters:
            self._recv_reply(req, p.msgid, status, data, f)
        if status == 200:
            self.last_response = data

    def _recv_reply(self, req: Req, msgid: str, status: int, data: bytes, f: t.Optional[t.Dict]) -> None:
        if f is not None and f["kind"] == "bad_relates" and status == 200:
            inner = data.decode().split("<s:Body>", 1)[1].rsplit("</s:Body>", 1)[0]
            self._soap_reply(req, msgid, "Receive", inner, f)
        elif f is not None and f["kind"] == "mutate_body" and status == 200:
            self.fire(f)
            self._reply(req, status, {}, self._mutate(data, f), f=None)
        else:
            if f is not None and f["kind"] == "dup_resp" and status != 200:
                f = None  # a repeated fault is a fault like any other: only answers are matched to their request
            self._reply(req, status, {}, data, f=f)

    def _mutate(self, data: bytes, f: t.Dict) -> bytes:
        return data

    def pump(self, tg: Target) -> None:
        p = tg.pending
        if p is None or not p.alive or not (tg.q or tg.done):
            return
        budget = self.cfg.get("resp_units", [1, 8])
        n = self.rng.randint(budget[0], budget[1])
        if len(self.responses) > 300:  # keep huge replies affordable
            n = max(n, len(tg.q) // 4)
        maxb = self.cfg.get("resp_bytes", 300_000) * (1 + len(self.responses) // 300)
        if tg.flush:
            n, maxb, tg.flush = 10**6, 10**9, False
        out: t.List[str] = []
        total = 0
        pid = ' CommandId="%s"' % p.cid if p.cid else ""  # type: ignore[attr-defined]
        if p.ps:  # type: ignore[attr-defined]
            blob = b""
            took = 0
            while tg.q and took < n and (not took or total + len(tg.q[0][0]) <= maxb):
                unit = tg.q.pop(0)
                took += 1
                total += len(unit[0])
                blob += unit[0]
                oid, i, cnt = unit[1]
                # objects partly delivered are kept whole for a client that connects later
                tg.cut.append(unit)
                if i == cnt - 1:
                    tg.cut = [u for u in tg.cut if u[1][0] != oid]
            if blob:
                out.append('<rsp:Stream Name="stdout"%s>%s</rsp:Stream>' % (pid, base64.b64encode(blob).decode()))
            if took > 1:
                self.cover("multi_fragment_response")
        else:
            took = 0
            while tg.q and took < n and total < maxb:
                stream, data = tg.q.pop(0)
                lim = self.cfg.get("stream_chunk", 65536)
                if len(self.responses) > 150:
                    lim = max(lim, 5000)
                if len(data) > lim:
                    tg.q.insert(0, (stream, data[lim:]))
                    data = data[:lim]
                took += 1
                total += len(data)
                if stream in p.stream.split():
                    out.append('<rsp:Stream Name="%s"%s>%s</rsp:Stream>' % (stream, pid, base64.b64encode(data).decode()))
        if tg.done and not tg.q:
            rc = "<rsp:ExitCode>%d</rsp:ExitCode>" % tg.rc if tg.rc is not None else ""
            if not p.ps:  # type: ignore[attr-defined]
                if self.cfg.get("end_with_data"):  # a stream's last data may carry the end marker itself
                    for s in p.stream.split():
                        last = [i for i, x in enumerate(out) if x.startswith('<rsp:Stream Name="%s"' % s)]
                        if last:
                            out[last[-1]] = out[last[-1]].replace(">", ' End="true">', 1)
                for s in p.stream.split():
                    if any(x.startswith('<rsp:Stream Name="%s"' % s) and ' End="true">' in x for x in out):
                        continue
                    out.append('<rsp:Stream Name="%s"%s End="true"></rsp:Stream>' % (s, pid))
            out.append('<rsp:CommandState%s State="%sDone">%s</rsp:CommandState>' % (pid, STATE, rc))
        elif p.cid:  # type: ignore[attr-defined]
            st = "Running" if not self.cfg.get("pending_state") or self.rng.random() < 0.5 else "Pending"
            out.append('<rsp:CommandState%s State="%s%s"></rsp:CommandState>' % (pid, STATE, st))
        data = self.envelope(p.msgid, "ReceiveResponse", "<rsp:ReceiveResponse>%s</rsp:ReceiveResponse>" % "".join(out))
        self._answer(tg, p, 200, data, None)
