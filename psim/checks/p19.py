"""P19: authentication failures are reported, nothing runs without it, and a broken connection is recovered."""
from __future__ import annotations

import os
import random
import typing as t

from .. import fw
from . import common as c

HELLO = b"hello\r\n".hex()
RUNS = {"quick": 2000, "thorough": 150000}

LOSS = ("drop_req", "drop_resp", "rst_before", "rst_after", "fin_before", "fin_after", "close_after", "dead_after", "reauth_after", "trunc_resp")
OFFERS = {  # what a server of each kind names in its challenges
    "basic": ['Basic realm="WSMAN"', 'Negotiate, Basic realm="WSMAN"', "Basic"],
    "ntlm": ["Negotiate", "NTLM", 'Negotiate, Basic realm="WSMAN"', "Negotiate, Kerberos, CredSSP", "Kerberos, Negotiate", 'Basic realm="WSMAN", Negotiate', "negotiate", "Negotiate, NTLM"],
    "credssp": ["CredSSP", "Negotiate, CredSSP", "CredSSP, Kerberos, Negotiate", 'CredSSP, Basic realm="WSMAN"'],
    "certificate": ["Negotiate", ""],
}
STRANGE = {  # challenges that do not offer what the client was told to use
    "ntlm": ['Basic realm="WSMAN"', "CredSSP", 'Digest realm="x", nonce="y"', "", "Bearer", "Kerberos"],
    "credssp": ['Basic realm="WSMAN"', "Negotiate, Kerberos", 'Digest realm="x"', ""],
    "basic": ["Negotiate", ""],
    "certificate": ["Negotiate", ""],
}
GOOD = [["DOM\\user", "pass"], ["DOM\\user", "pass"], ["DOM\\other", "hunter2"], ["DOM\\j\u00f6rg", "p\u00e4ss w\u00f6rd \u2603"], ["DOM\\long", "x7" * 60]]
WRONG = [["DOM\\user", "Pass"], ["DOM\\user", "pass "], ["DOM\\user", "hunter2"], ["DOM\\user", ""], ["DOM\\nobody", "pass"], ["DOM\\j\u00f6rg", "p\u00e4ss"], ["DOM\\use", "pass"]]
BASIC = [["user", "pass"], ["DOM\\user", "p:a:ss"], ["us er", "pa ss"], ["j\u00f6rg", "p\u00e4ssw\u00f6rd"], ["u" * 100, "p" * 300]]


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv: t.Dict[str, t.Any] = {"by_name": True, "plans": [], "procs": []}
    srv["name"] = rng.choice(["srv", "srv", "SRV01.Domain.Local", "10.0.0.5", "fe80::1"])
    kind = rng.choice(["basic", "ntlm", "ntlm", "negotiate", "negotiate", "credssp", "credssp", "certificate"])
    fam = "ntlm" if kind == "negotiate" else kind
    ssl = kind == "certificate" or rng.random() < 0.3
    if ssl:
        srv.update(ssl=True, port=5986, cert=rng.choice(["sha256", "sha256", "sha384", "sha512", "sha1", "md5", "ed25519"]))
    client: t.Dict[str, t.Any] = {"auth": kind}
    srv["auth"] = "ntlm" if fam == "ntlm" else kind
    srv["www"] = rng.choice(OFFERS[fam])
    bad: t.Optional[str] = None
    r = rng.random()
    if r < 0.25:
        bad = "creds"
    elif r < 0.4:
        bad = "scheme"
        srv["www"] = rng.choice([x for x in STRANGE[fam] if x != "Kerberos" or kind == "ntlm"])
        srv["deny"] = True
    if kind == "certificate":
        client.update(certificate_key_password=rng.choice([None, None, "k\u00e9y", "secret"]))
        srv["key_password"] = client["certificate_key_password"]
        if bad == "creds":
            srv["deny"] = True
    elif kind == "basic":
        srv["cred"] = rng.choice(BASIC)
        client.update(username=srv["cred"][0], password=srv["cred"][1] + ("x" if bad == "creds" else ""))
    else:
        u, p = rng.choice(WRONG if bad == "creds" else GOOD)
        client.update(username=u, password=p)
    if fam in ("ntlm", "credssp"):
        enc = rng.choice(["auto", "auto", "always", "never"])
        client["encryption"] = enc
        srv["encrypt"] = enc == "always" or (enc == "auto" and not ssl)
        if fam == "ntlm" and rng.random() < 0.3:
            client["negotiate_service"] = rng.choice(["HTTP", "WSMAN"])
        if fam == "ntlm" and rng.random() < 0.2:
            client["negotiate_hostname_override"] = "other.host"
    else:
        client["encryption"] = "auto" if ssl else "never"
    if rng.random() < 0.2:
        srv["proxy"] = True
    if rng.random() < 0.2:
        srv["idle_close"] = rng.choice([5.0, 30.0])
    steps: t.List = []
    denied = False
    for i in range(rng.choice([2, 4, 6])):
        r = rng.random()
        if bad is None and r < 0.12:
            denied = not denied
            steps.append(["deny" if denied else "allow", rng.random() < 0.7])
        elif r < 0.2:
            steps.append(["sleep", rng.choice([1.0, 10.0, 60.0])])
        elif r < 0.25:
            steps.append(["cut", rng.choice(["fin", "rst", "dead"])])
        st: t.List = [rng.choice(["proc", "pool", "pool", "list"]), None]
        r = rng.random()
        if r < 0.35:
            f: t.Dict[str, t.Any] = {"kind": rng.choice(LOSS), "on": rng.choice(["auth", "auth", "auth", "Create", "Command", "Receive", "Delete", "Enumerate"]), "n": rng.choice([1, 1, 2, 3])}
            if f["kind"] == "trunc_resp":
                f.update(how=rng.choice(["fin", "rst", "dead"]), frac=rng.random())
            st[1] = f
        elif r < 0.45 and fam in ("ntlm", "credssp"):
            st[1] = {"kind": "token", "how": rng.choice(["flip", "flip", "cut", "noise", "notb64"]), "n": rng.choice([1, 1, 2, 3]), "pos": rng.random(), "bit": rng.randrange(8)}
        steps.append(st)
    if bad is None:
        if denied:
            steps.append(["allow", False])
        steps.append([rng.choice(["proc", "pool", "list"]), None])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": fw.gen_ws(rng), "client": client, "bad": bad, "steps": steps, "max_steps": 200000}


def pems(run: fw.Run) -> t.Dict:
    d = fw.scratch_dir(run)
    out = {}
    for k in ("certificate_pem", "certificate_key_pem"):
        out[k] = os.path.join(d, k)
        with open(out[k], "w") as f:
            f.write("-----BEGIN X-----\n")
    return out


def auth_error(e: t.Any) -> bool:
    """The package's own error, or that of the library the scheme is delegated to."""
    import requests_credssp.exceptions as rc
    from pypsrp.exceptions import AuthenticationError

    return isinstance(e, (AuthenticationError, rc.AuthenticationException, rc.NTStatusException))


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.shell import Process, WinRS

    cfg = sc["srv"]
    client = dict(sc["client"])
    if client.get("auth") not in ("basic", "ntlm", "negotiate", "credssp", "certificate"):
        return
    if cfg.get("www") == "Kerberos" and client["auth"] != "ntlm":
        return  # the Kerberos library would look for a real one
    cfg["auth"] = "ntlm" if client["auth"] == "negotiate" else client["auth"]
    if client["auth"] == "certificate":
        p = pems(run)
        client.update(p)
        cfg["key_password"] = client.get("certificate_key_password")
        cfg["client_cert"] = p["certificate_pem"]
    fired: t.List[t.Dict] = []
    cfg["plans"] = [[["out", ["I32", 5]], ["end", "Completed"]]] * 8
    cfg["procs"] = [[["out", "stdout", HELLO], ["end", 3]]] * 8

    h = run.host(cfg)
    h.on_fire = fired.append
    w = run.wsman(h, **client)

    def proc() -> t.Any:
        with WinRS(w) as sh:
            pr = Process(sh, "exe1")
            pr.invoke()
            return pr.rc, pr.stdout

    def pool() -> t.Any:
        with RunspacePool(w) as rp:
            ps = PowerShell(rp)
            ps.add_script("p 1")
            return ps.invoke()

    def listing() -> t.Any:
        return isinstance(RunspacePool.get_runspace_pools(w), list)

    calls = {"proc": (proc, (3, b"hello\r\n")), "pool": (pool, [5]), "list": (listing, True)}
    lost = False  # the connection may be gone or unauthenticated without the client knowing
    for st in sc["steps"]:
        if st[0] == "sleep":
            run.settle(st[1])
            lost = lost or bool(cfg.get("idle_close"))
            continue
        if st[0] in ("deny", "allow"):
            h.cfg["deny"] = st[0] == "deny"
            if st[1]:  # what is authenticated now has to authenticate again
                for conn in run.sim.net.conns:  # type: ignore[attr-defined]
                    if conn.state.pop("auth_done", None):
                        conn.state.pop("ctx", None)
                        lost = True
            continue
        if st[0] == "cut":
            for conn in run.sim.net.conns:  # type: ignore[attr-defined]
                if not conn.client_closed:
                    {"fin": conn.server_close, "rst": conn.server_reset, "dead": conn.blackhole}[st[1]]()
            run.settle(1.0)
            lost = True
            continue
        run.settle(1.0)
        denied = bool(sc["bad"]) or bool(h.cfg.get("deny"))
        f = st[1]
        armed = None
        if f is not None and f["kind"] == "token":
            h.cfg["token_fault"] = dict(f)
        elif f is not None:
            armed = h.arm(f)
        del fired[:]
        n_soap, n_http, n_fail, n_undec = len(h.requests), len(h.http), h.counts.get("auth_failed", 0), h.counts.get("undecryptable", 0)
        authed = any(conn.state.get("auth_done") and not conn.client_closed for conn in run.sim.net.conns)  # type: ignore[attr-defined]
        fn, want = calls[st[0]]
        r = run.call(fn)
        if armed is not None:
            armed["used"] = True
        h.cfg.pop("token_fault", None)
        what = "%s with %r" % (st[0], [(x["kind"], x.get("on")) for x in fired])
        trips = len(h.http) - n_http
        if denied and not authed:
            run.cover["denied"] += 1
            if not run.check(len(h.requests) == n_soap, "executed", "%s: the server carried out %r of a client it refused" % (what, [x["action"] for x in h.requests[n_soap:]])):
                return
            if not run.check(not r.ok, "accepted", "%s %s although the server refused the client" % (what, r)):
                return
            if not run.check(trips <= 12 * (1 + len(fired)), "trips", "%s took %d HTTP requests to fail" % (what, trips)):
                return
            if not fired and not lost:
                if not run.check(auth_error(r.exc), "error", "%s %s, not an authentication error" % (what, r)):
                    return
                fails = h.counts.get("auth_failed", 0) - n_fail
                if not run.check(fails <= 1, "lockout", "%s tried the credentials %d times" % (what, fails)):
                    return
            lost = bool([x for x in fired if x["kind"] in LOSS])
            continue
        if denied:
            lost = True  # an authenticated connection carries on until it is lost
            continue
        if r.ok:
            if not run.check(r.value == want, "result", "%s returned %.200r" % (what, r.value)):
                return
            if any(x["kind"] in LOSS for x in fired):
                lost = True
            elif not fired:
                lost = False
            continue
        run.cover["failed:" + "+".join(sorted({x["kind"] for x in fired}))] += 1
        if not run.check(fired or lost, "refused", "%s %s although nothing was wrong" % (what, r)):
            return
        # the call failed: the next one authenticates afresh and works
        lost = lost and any(x["kind"] in LOSS for x in fired)
    run.problems("model", ("clear", "crypt", "soap", "http", "auth", "proxy"))

