"""Simulated TCP: FIFO byte streams with latency, chunking, resets, half-dead connections, refused/unanswered connects."""
from __future__ import annotations

import os
import io
import socket
import typing as t

from . import kernel


class Endpoint:
    """What a simulated host implements."""

    def accept(self, conn: "Conn") -> t.Any:  # pragma: no cover
        """Return None to accept, or one of ("refuse",), ("timeout",), ("delay", secs)."""

    def data(self, conn: "Conn", data: bytes) -> None:  # pragma: no cover
        pass

    def closed(self, conn: "Conn") -> None:  # pragma: no cover
        pass


class Net:
    def __init__(self, sim: kernel.Sim, lat: t.Tuple[float, float] = (0.001, 0.01), chunk: int = 0) -> None:
        self.sim = sim
        self.lat = lat if len(lat) == 2 else (0.001, 0.01)
        self.chunk = chunk
        self.hosts: t.Dict[t.Tuple[str, int], Endpoint] = {}
        self.conns: t.List[Conn] = []
        self.attempts: t.List[t.Tuple[float, str, int, str]] = []
        self.ends: t.Dict[int, float] = {}  # attempt number: when it failed

    def delay(self) -> float:
        return self.sim.rng.uniform(*self.lat)

    def open_client_socks(self) -> int:
        return sum(1 for c in self.conns if not c.client_closed)


class Conn:
    """One TCP connection; the client half is a SimSocket, the server half an Endpoint."""

    def __init__(self, net: Net, ep: Endpoint, peer: t.Tuple[str, int]) -> None:
        self.net = net
        self.sim = net.sim
        self.ep = ep
        self.peer = peer
        self.id = len(net.conns)
        net.conns.append(self)
        self.inbuf = bytearray()  # bytes the client can read
        self.eof = False
        self.reset = False
        self.client_closed = False
        self.server_closed = False
        self.dead = False  # both directions swallow everything
        self.c2s_at = 0.0
        self.s2c_at = 0.0
        self.state: t.Dict[str, t.Any] = {}

    # -- client -> server
    def client_send(self, data: bytes) -> None:
        if self.dead:
            return
        self.c2s_at = max(self.c2s_at, self.sim.now + self.net.delay())
        self.sim.at(self.c2s_at, lambda: self._srv_data(data))

    def _srv_data(self, data: bytes) -> None:
        if self.dead or self.server_closed or self.reset:
            return
        self.ep.data(self, data)

    def client_close(self) -> None:
        if self.client_closed:
            return
        self.client_closed = True
        if self.dead:
            return
        self.c2s_at = max(self.c2s_at, self.sim.now + self.net.delay())
        self.sim.at(self.c2s_at, self._srv_closed)

    def _srv_closed(self) -> None:
        if not self.dead and not self.server_closed:
            self.server_closed = True
            self.ep.closed(self)

    # -- server -> client
    def server_send(self, data: bytes, extra: float = 0.0) -> None:
        if self.dead or self.server_closed:
            return
        size = self.net.chunk or len(data) or 1
        at = max(self.s2c_at, self.sim.now + extra + self.net.delay())
        for i in range(0, len(data), size):
            part = data[i : i + size]
            self.sim.at(at, lambda p=part: self._cli_data(p))
            at += 0.0001 if self.net.chunk else 0.0
        self.s2c_at = at

    def _cli_data(self, part: bytes) -> None:
        if self.dead or self.client_closed or self.reset:
            return
        self.inbuf += part

    def server_close(self) -> None:
        """FIN after everything already sent."""
        if self.server_closed:
            return
        self.server_closed = True
        if self.dead:
            return
        self.s2c_at = max(self.s2c_at, self.sim.now + self.net.delay())

        def fin() -> None:
            if not self.dead:
                self.eof = True

        self.sim.at(self.s2c_at, fin)

    def server_reset(self) -> None:
        self.server_closed = True

        def rst() -> None:
            if not self.dead:
                self.reset = True
                self.inbuf.clear()

        self.sim.at(self.sim.now + self.net.delay(), rst)

    def blackhole(self) -> None:
        self.dead = True

    def readable(self) -> bool:
        return bool(self.inbuf) or self.eof or self.reset or self.client_closed


class _Raw(io.RawIOBase):
    def __init__(self, sock: "SimSocket") -> None:
        self._sock = sock

    def readable(self) -> bool:
        return True

    def readinto(self, b: t.Any) -> int:
        return self._sock.recv_into(b)

    def close(self) -> None:
        if not self.closed:
            super().close()
            self._sock._drop_ref()


class SimSocket:
    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, conn: Conn) -> None:
        self.conn = conn
        self.sim = conn.sim
        self._timeout: t.Optional[float] = None
        self._refs = 0
        self._closed = False
        self.tls_host: t.Optional[str] = None

    def settimeout(self, v: t.Any) -> None:
        self._timeout = v

    def gettimeout(self) -> t.Any:
        return self._timeout

    def setsockopt(self, *a: t.Any) -> None:
        pass

    def getpeername(self) -> t.Tuple[str, int]:
        return self.conn.peer

    def fileno(self) -> int:
        return 1000 + self.conn.id

    def sendall(self, data: t.Any) -> None:
        if self._closed:
            raise OSError(9, "Bad file descriptor")
        self.sim.block(None, 0.0)
        if self.conn.reset:
            raise BrokenPipeError(32, "Broken pipe")
        self.conn.client_send(bytes(data))

    def send(self, data: t.Any) -> int:
        self.sendall(data)
        return len(data)

    def recv_into(self, b: t.Any, nbytes: int = 0) -> int:
        c = self.conn
        if not self.sim.block(c.readable, self._timeout):
            raise socket.timeout("timed out")
        if c.reset:
            raise ConnectionResetError(104, "Connection reset by peer")
        n = min(len(c.inbuf), len(b))
        b[:n] = c.inbuf[:n]
        del c.inbuf[:n]
        return n

    def recv(self, n: int) -> bytes:
        b = bytearray(n)
        return bytes(b[: self.recv_into(b)])

    def makefile(self, mode: str = "r", buffering: int = -1, **kw: t.Any) -> t.Any:
        self._refs += 1
        return io.BufferedReader(_Raw(self))

    def _drop_ref(self) -> None:
        self._refs -= 1
        if self._closed and self._refs <= 0:
            self.conn.client_close()

    def close(self) -> None:
        self._closed = True
        if self._refs <= 0:
            self.conn.client_close()

    def shutdown(self, how: int) -> None:
        self.conn.client_close()


_certs: t.Dict[str, bytes] = {}


def certificate(ep: t.Any) -> t.Tuple[bytes, str]:
    """The server's certificate and the hash RFC 5929 takes for its end-point binding."""
    host = getattr(ep, "host", ep)  # a tunnel ends at the host behind the proxy
    kind = getattr(host, "cfg", {}).get("cert", "sha256")
    if kind not in ("sha384", "sha512", "sha1", "md5", "ed25519"):
        kind = "sha256"
    if kind not in _certs:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cert.der" if kind == "sha256" else "cert-%s.der" % kind), "rb") as f:
            _certs[kind] = f.read()
    return _certs[kind], kind if kind in ("sha384", "sha512") else "sha256"


class TLSSocket(SimSocket):
    """A connection the simulator treats as TLS-protected (payload itself is not enciphered)."""

    def getpeercert(self, binary_form: bool = False) -> t.Any:
        return certificate(self.conn.ep)[0] if binary_form else {}

    def selected_alpn_protocol(self) -> None:
        return None

    def version(self) -> str:
        return "TLSv1.3"


def create_connection(address, timeout=None, source_address=None, socket_options=None):
    sim = kernel.CURRENT
    if sim is None:
        raise kernel.HarnessError("connection outside a simulation to %r" % (address,))
    net: Net = sim.net  # type: ignore[attr-defined]
    if not (timeout is None or isinstance(timeout, (int, float))):
        timeout = None  # urllib3's default-timeout sentinel
    host, port = address
    host = host.strip("[]").lower()
    ep = net.hosts.get((host, port))
    sim.log("connect", host, port)
    if ep is None:
        sim.block(None, net.delay())
        net.attempts.append((sim.now, host, port, "nohost"))
        raise ConnectionRefusedError(111, "Connection refused")
    conn = Conn(net, ep, (host, port))
    start = sim.now
    verdict = ep.accept(conn)
    kind = verdict[0] if verdict else "ok"
    net.attempts.append((start, host, port, kind))
    nth = len(net.attempts) - 1
    if kind == "refuse":
        conn.client_closed = conn.dead = True
        sim.block(None, net.delay())
        net.ends[nth] = sim.now
        raise ConnectionRefusedError(111, "Connection refused")
    if kind == "timeout":
        conn.client_closed = conn.dead = True
        sim.block(None, timeout)  # for ever when there is no timeout
        net.ends[nth] = sim.now
        raise socket.timeout("timed out")
    delay = net.delay() * 2
    if kind == "delay":
        delay += verdict[1]
    if timeout is not None and delay > timeout:
        conn.client_closed = conn.dead = True
        sim.block(None, timeout)
        net.ends[nth] = sim.now
        raise socket.timeout("timed out")
    sim.block(None, delay)
    sock = SimSocket(conn)
    if timeout is not None:
        sock.settimeout(timeout)
    return sock


def wait_for_read(sock, timeout=None):
    return sock.sim.block(sock.conn.readable, timeout)


def tls_wrap(*args, **kwargs):
    from urllib3.connection import _WrappedAndVerifiedSocket

    sock = kwargs.get("sock", args[0] if args else None)
    tls = TLSSocket(sock.conn)
    tls._timeout = sock._timeout
    tls.tls_host = kwargs.get("server_hostname")
    sock.conn.state["tls"] = True
    sock.conn.state["tls_args"] = {k: v for k, v in kwargs.items() if k != "sock"}
    sock.conn.state["client_cert"] = kwargs.get("cert_file")
    sock.conn.state["key_password"] = kwargs.get("key_password")
    return _WrappedAndVerifiedSocket(socket=tls, is_verified=True)
