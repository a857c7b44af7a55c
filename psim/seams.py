"""Installs the seams (clock, randomness, sockets, RSA keys) before requests/pypsrp are imported."""
from __future__ import annotations

import os
import socket
import sys
import threading
import time
import types
import warnings

from . import kernel

REAL = types.SimpleNamespace(
    time=time.time,
    monotonic=time.monotonic,
    perf_counter=time.perf_counter,
    sleep=time.sleep,
    urandom=os.urandom,
    connect=socket.socket.connect,
)
KEYS: list = []
_installed = False


def install(src: str, scratch: str) -> None:
    global _installed
    if _installed:
        return
    _installed = True
    for k in list(os.environ):
        if k.lower().endswith("_proxy") or k in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC"):
            del os.environ[k]
    os.environ["HOME"] = scratch
    os.environ["NO_PROXY"] = "*"
    import tempfile

    tempfile.tempdir = scratch

    def _time() -> float:
        s = kernel.CURRENT
        return s.wall() if s is not None else REAL.time()

    def _mono() -> float:
        s = kernel.CURRENT
        return 1000.0 + s.now if s is not None else REAL.monotonic()

    def _perf() -> float:
        s = kernel.CURRENT
        return 1000.0 + s.now if s is not None else REAL.perf_counter()

    def _sleep(secs: float) -> None:
        s = kernel.CURRENT
        if s is None:
            REAL.sleep(secs)
        else:
            s.sleep(secs)

    def _urandom(n: int) -> bytes:
        s = kernel.CURRENT
        return s.randbytes(n) if s is not None else REAL.urandom(n)

    # bind in the modules that captured the originals first, then patch the sources
    time.time = _time
    time.monotonic = _mono
    time.perf_counter = _perf
    time.sleep = _sleep
    os.urandom = _urandom

    def _no_connect(self, addr):
        raise kernel.HarnessError("real network connect to %r" % (addr,))

    socket.socket.connect = _no_connect  # type: ignore[method-assign]
    socket.socket.connect_ex = _no_connect  # type: ignore[method-assign]

    sys.path.insert(0, src)

    import urllib3.connection
    import urllib3.util.connection

    from . import net

    urllib3.util.connection.create_connection = net.create_connection
    urllib3.connection.wait_for_read = net.wait_for_read
    if not hasattr(urllib3.connection, "_ssl_wrap_socket_and_match_hostname"):
        raise kernel.HarnessError("urllib3 TLS seam not found")
    urllib3.connection._ssl_wrap_socket_and_match_hostname = net.tls_wrap

    # deterministic NTLM timestamps
    import datetime

    import spnego._ntlm_raw.messages as m

    class _FT(m.FileTime):
        @classmethod
        def now(cls):
            s = kernel.CURRENT
            ts = s.wall() if s is not None else REAL.time()
            d = datetime.datetime.fromtimestamp(ts, tz=datetime.timezone.utc)
            return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, tzinfo=d.tzinfo)

    m.FileTime.now = classmethod(_FT.now.__func__)  # type: ignore[method-assign]

    # RSA key generation is slow and random: take keys from a fixed set
    from cryptography.hazmat.primitives import serialization
    from cryptography.hazmat.primitives.asymmetric import rsa

    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "rsa_keys.pem"), "rb") as f:
        blob = f.read()
    for part in blob.split(b"-----END PRIVATE KEY-----\n")[:-1]:
        KEYS.append(serialization.load_pem_private_key(part + b"-----END PRIVATE KEY-----\n", None))
    real_gen = rsa.generate_private_key

    def gen(public_exponent: int, key_size: int, backend=None):
        s = kernel.CURRENT
        if s is None or public_exponent != 65537 or key_size != 2048:
            return real_gen(public_exponent, key_size)
        return KEYS[s.rng_bytes.randrange(len(KEYS))]

    rsa.generate_private_key = gen

    # swallow the warnings requests/pypsrp emit; checks that care record them
    warnings.simplefilter("ignore")
    import logging

    logging.getLogger("pypsrp").addHandler(logging.NullHandler())
    logging.getLogger("pypsrp").propagate = False
    logging.getLogger("pypsrp").setLevel(logging.CRITICAL + 1)
    logging.getLogger("urllib3").setLevel(logging.CRITICAL + 1)

    import pypsrp.client  # noqa: F401  (real code under test)
    import pypsrp.host  # noqa: F401

    if not os.path.abspath(pypsrp.client.__file__).startswith(os.path.abspath(src)):
        raise kernel.HarnessError("pypsrp imported from %s, expected %s" % (pypsrp.client.__file__, src))
