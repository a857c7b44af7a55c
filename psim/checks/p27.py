"""P27: every connection and request of a client goes where and how that client was configured."""
from __future__ import annotations

import os
import random
import ssl
import typing as t
import xml.etree.ElementTree as ET

from .. import fw, server
from . import session as s

RUNS = {"quick": 1500, "thorough": 120000}
NAMES = ["srv%d", "Win-0%d.Corp.example", "10.1.2.%d", "fd00::1%d", "2001:DB8:0:0::%d"]
PATHS = [None, None, "PowerShell", "powershell-liveid", "a/b c", "wsman?PSVersion=5.1"]
ENV = ("HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "NO_PROXY", "http_proxy", "https_proxy", "all_proxy", "no_proxy", "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE")
FAULTS = ["rst_before", "rst_after", "fin_before", "fin_after", "dead_after", "drop_resp", "trunc_resp", "http_err", "close_after"]


def gen(rng: random.Random, tier: str) -> t.Dict:
    env: t.Dict[str, t.Any] = {}
    r = rng.random()
    if r < 0.3:
        env["proxy"] = "elsewhere"
    elif r < 0.45:
        env["proxy"] = "0"  # the first client's proxy comes from the environment
    if rng.random() < 0.25:
        env["no_proxy"] = rng.choice(["host", "*", "other.example"])
    if rng.random() < 0.25:
        env["bundle"] = rng.choice(["REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"])
    env["lower"] = rng.random() < 0.5
    cls = []
    for i in range(rng.choice([1, 1, 2])):
        srv = fw.gen_srv(rng, auth=False)
        srv["by_name"] = True
        srv["name"] = rng.choice(NAMES) % i
        srv["auth"] = rng.choice(["none", "basic", "ntlm", "negotiate", "credssp", "certificate"])
        if srv["auth"] == "basic":
            srv["cred"] = ["user", "pass"]
        tls = srv["auth"] == "certificate" or rng.random() < 0.55
        srv["ssl"] = tls
        port = rng.choice([None, None, 5985, 5986, 8443])
        srv["port"] = port or (5986 if tls else 5985)
        if srv["auth"] == "certificate":
            srv["key_password"] = rng.choice([None, "k\u00e9y", "secret"])
        if srv["auth"] in ("ntlm", "negotiate", "credssp"):
            srv["encrypt"] = srv["auth"] == "credssp" or rng.random() < 0.6
            if not srv["encrypt"]:
                srv["client_enc"] = "never"
        ws = fw.gen_ws(rng)
        if rng.random() < 0.3:
            ws["locale"] = rng.choice(["en-US", "de-DE", "fr-FR"])
        if rng.random() < 0.3:
            ws["data_locale"] = rng.choice(["en-GB", "ja-JP"])
        how = rng.choice(["none", "none", "explicit", "no_proxy"])
        kind = rng.choice(["proc", "pool", "pool"])
        ops, plans = s.gen_ops(rng, kind, rng.choice([2, 4, 7]), rng.choice([0, 0, 20000]))
        srv["procs" if kind == "proc" else "plans"] = plans
        fl: t.List = []
        cuts: t.List[int] = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            j = rng.randrange(len(ops))
            if rng.random() < 0.5:
                cuts.append(j)
            else:
                f: t.Dict[str, t.Any] = {"on": rng.choice(s.CLASSES[ops[j][0]]), "n": 1, "kind": rng.choice(FAULTS)}
                if f["kind"] == "http_err":
                    f.update(status=503, body="x", ctype="text/plain")
                fl.append([j, f])
        if rng.random() < 0.3:
            srv["connect"] = [[rng.choice(["refuse", "timeout", "ok"])] for _ in range(rng.randint(1, 3))]
            ws["reconnection_retries"] = 3
        cls.append(
            {
                "srv": srv,
                "ws": ws,
                "port": port,
                "path": rng.choice(PATHS),
                "proxy": how,
                "verify": rng.choice(["default", True, True, False, "path"]),
                "conf": rng.choice([None, None, "Microsoft.Exchange", "My Conf"]) if kind == "pool" else None,
                "kind": kind,
                "ops": ops,
                "op_faults": fl,
                "cuts": cuts,
                "close": rng.random() < 0.3,
            }
        )
    n = [len(x["ops"]) for x in cls]
    order = [i for i, k in enumerate(n) for _ in range(k)]
    rng.shuffle(order)
    return {"net": fw.gen_net(rng), "env": env, "clients": cls, "order": order}


def short(name: str) -> str:
    """The client names an IPv6 host in its short form."""
    import ipaddress

    try:
        return ipaddress.IPv6Address(name).compressed
    except ValueError:
        return name


def proxy_name(name: str) -> str:
    return "proxy-" + "".join(c if c.isalnum() else "-" for c in name.lower())


class Cl:
    """One client, and everything it may do to the network."""

    def __init__(self, run: fw.Run, sc: t.Dict, i: int, env: t.Dict, bundle: str) -> None:
        self.run, self.sc = run, sc
        cfg = dict(sc["srv"])
        name = cfg["name"]
        bypass = env.get("no_proxy") in ("host", "*")
        want = {"explicit": "own", "no_proxy": None}.get(sc["proxy"], None)
        if sc["proxy"] == "none" and env.get("proxy") and not bypass:
            want = "env"
        if want == "env" and env["proxy"] == "elsewhere":
            want = None if sc["proxy"] == "no_proxy" else "elsewhere"
        elif want == "env" and i != 0:
            want = "first"
        self.want = want
        cfg["proxy"] = want in ("own", "env")
        args: t.Dict[str, t.Any] = {"port": sc["port"], "proxy": None}
        if cfg["auth"] == "certificate":
            for k in ("certificate_pem", "certificate_key_pem"):
                args[k] = os.path.join(os.path.dirname(bundle), "%s%d" % (k, i))
                with open(args[k], "w") as f:
                    f.write("-----BEGIN X-----\n")
            args.update(auth="certificate", encryption="auto")
            cfg["client_cert"] = args["certificate_pem"]
            args["certificate_key_password"] = cfg.get("key_password")
        cfg["name"] = short(name)
        cfg["port"] = sc.get("port") or (5986 if cfg.get("ssl") else 5985)
        self.h = h = run.host(cfg)
        if sc["proxy"] == "explicit":
            args["proxy"] = "http://%s:3128" % proxy_name(cfg["name"])
        elif sc["proxy"] == "no_proxy":
            args["no_proxy"] = True
        if sc.get("path"):
            args["path"] = sc["path"]
        self.bundle: t.Any = None
        v = sc["verify"]
        if v == "path":
            v = self.bundle = bundle + ".own%d" % i
            with open(v, "w") as f:
                f.write("x")
        elif v in (True, "default") and env.get("bundle"):
            self.bundle = bundle
        if v != "default":
            args["cert_validation"] = v
        self.args = dict(args, **sc["ws"])
        kw = {"configuration_name": sc["conf"]} if sc.get("conf") else {}
        self.kw = kw
        self.done = False
        self.ses = s.Session(run, h, sc["kind"], args=self.args, **kw)
        self.peer = (proxy_name(cfg["name"]), 3128) if cfg["proxy"] else (h.name.lower(), h.port)
        where = "[%s]" % h.name if ":" in h.name else h.name
        self.url = "http%s://%s:%d/%s" % ("s" if cfg.get("ssl") else "", where, h.port, sc.get("path") or "wsman")
        self.seen = 0
        self.lost = False

    # -- one operation
    def step(self, i: int) -> bool:
        run, h, sc = self.run, self.h, self.sc
        op = sc["ops"][i]
        net_: t.Any = run.sim.net  # type: ignore[attr-defined]
        if i in sc["cuts"]:
            for c in net_.conns:
                if c.ep is h or getattr(c.ep, "host", None) is h:
                    if not c.client_closed:
                        c.server_close()
            run.settle(1.0)
            self.lost = self.lost or bool(sc["srv"].get("encrypt")) or op[0] == "alive"
            run.cover["cut"] += 1
        if self.lost:  # the session may be beyond repair; what comes next uses the same client
            return self.again()
        fired: t.List = []
        h.on_fire = fired.append
        armed = [h.arm(f) for j, f in sc["op_faults"] if j == i]
        a0, c0, r0, h0 = len(net_.attempts), len(net_.conns), len(h.requests), len(h.http)
        r = self.ses.do(op)
        for f in armed:
            f["used"] = True
        if sc["close"] and r is not None and op[0] not in ("alive", "close"):
            run.call(self.ses.w.close)  # the connections of an idle client can be given up at any time
            self.lost = self.lost or bool(sc["srv"].get("encrypt"))
        self.lost = self.lost or bool(fired)
        if r is None:
            return True
        if not self.judge(op[0], a0, c0, r0, h0):
            return False
        st = ("InvalidPipelineStateError", "InvalidPSRPOperation", "InvalidRunspacePoolStateError")
        if not r.ok and not self.lost and type(r.exc).__name__ not in st and not (op[0] == "reset" and sc["srv"].get("proto")):
            run.bad("works", "%s (client of %s) %s" % (op[0], self.url, r))
            return False
        if not r.ok:
            self.lost = True
        return True

    def again(self) -> bool:
        """A new pool or shell of the client after something was lost."""
        run, h = self.run, self.h
        self.done = True
        net_: t.Any = run.sim.net  # type: ignore[attr-defined]
        a0, c0, r0, h0 = len(net_.attempts), len(net_.conns), len(h.requests), len(h.http)
        for _ in range(2):
            ses = s.Session(run, h, self.sc["kind"], wsman=self.ses.w, args=self.args, **self.kw)
            r = ses.do(["open"])
            if r.ok:  # type: ignore[union-attr]
                ses.do(["invoke", 999])
                ses.do(["close"])
                run.cover["again"] += 1
                break
        return self.judge("a new session after a loss", a0, c0, r0, h0)

    def judge(self, op: str, a0: int, c0: int, r0: int, h0: int) -> bool:
        run, h, sc = self.run, self.h, self.sc
        net_: t.Any = run.sim.net  # type: ignore[attr-defined]
        what = "%s (client of %s)" % (op, self.url)
        for _, host, port, _ in net_.attempts[a0:]:
            if not run.check((host, port) == self.peer, "where", "%s connected to %s:%s, not %s:%s (proxy: %s, environment: %s)" % ((what, host, port) + self.peer + (sc["proxy"], run.sc["env"]))):
                return False
        for c in net_.conns[c0:]:
            if not self.conn(c, what):
                return False
        for x in h.http[h0:]:
            if not self.http(x, what):
                return False
        for x in h.requests[r0:]:
            if not self.soap(x, what):
                return False
        return True

    def conn(self, c: t.Any, what: str) -> bool:
        run, sc = self.run, self.sc
        got = c.state.get("tls_args")
        if got is None:
            return True  # judged when a request arrives on it
        if not run.check(sc["srv"].get("ssl"), "tls", "%s used TLS" % what):
            return False
        from urllib3.util.ssl_ import resolve_cert_reqs

        run.cover["tls"] += 1
        v = sc["verify"]
        mode = resolve_cert_reqs(got.get("cert_reqs"))
        checks = mode == ssl.CERT_REQUIRED
        ok = run.check(checks == (v is not False), "verify", "%s: certificate validation is %r but the connection was made with %s" % (what, v, mode))
        if ok and v is not False:
            ok = run.check(got.get("assert_hostname") is not False and not got.get("assert_fingerprint"), "verify", "%s: the host name of the certificate is not checked" % what)
            ok = ok and run.check((got.get("server_hostname") or "").strip("[]").lower() == self.h.name.lower(), "verify", "%s: the certificate is checked for %r" % (what, got.get("server_hostname")))
            if self.bundle:
                ok = ok and run.check(got.get("ca_certs") == self.bundle, "bundle", "%s: the certificate is validated against %r, not %r" % (what, got.get("ca_certs"), self.bundle))
                run.cover["bundle"] += 1
        key = (got.get("cert_file"), got.get("key_file"), got.get("key_password"))
        want = (None, None, None)
        if sc["srv"]["auth"] == "certificate":
            want = (self.args["certificate_pem"], self.args["certificate_key_pem"], self.args["certificate_key_password"])
        return ok and run.check(key == want, "client-cert", "%s presented the client certificate %r, not %r" % (what, key, want))

    def http(self, x: t.Dict, what: str) -> bool:
        import urllib.parse

        run = self.run
        net_: t.Any = run.sim.net  # type: ignore[attr-defined]
        tls = bool(net_.conns[x["conn"]].state.get("tls_args"))
        if not run.check(tls == bool(self.sc["srv"].get("ssl")), "tls", "%s: a request came %s TLS" % (what, "over" if tls else "without")):
            return False
        got = urllib.parse.unquote(x["path"])
        want = [self.url.split("://", 1)[1].split("/", 1)[1]]
        if self.peer[1] == 3128 and not tls:
            ok = got.lower() == self.url.lower()
        else:
            ok = got == "/" + want[0]
        return run.check(ok and x["method"] == "POST", "path", "%s: %s %s" % (what, x["method"], x["path"]))

    def soap(self, x: t.Dict, what: str) -> bool:
        run, ws = self.run, self.sc["ws"]
        root = ET.fromstring(x["soap"])
        hd = root.find("{%s}Header" % server.NS["s"])

        def g(ns: str, tag: str) -> t.Any:
            return hd.find("{%s}%s" % (server.NS[ns], tag))  # type: ignore[union-attr]

        lang = "{http://www.w3.org/XML/1998/namespace}lang"
        loc = ws.get("locale", "en-US")
        facts = {
            "To": ((g("wsa", "To").text or "").lower(), self.url.lower()),
            "Locale": (g("wsman", "Locale").attrib[lang], loc),
            "DataLocale": (g("wsmv", "DataLocale").attrib[lang], ws.get("data_locale") or loc),
        }
        if self.sc.get("conf") and x.get("action") in ("Create", "Command", "Send", "Receive", "Signal", "Delete", "Disconnect", "Reconnect", "Connect"):
            facts["ResourceURI"] = (g("wsman", "ResourceURI").text, "http://schemas.microsoft.com/powershell/" + self.sc["conf"])
        for k, (a, b) in facts.items():
            if not run.check(a == b, "header", "%s: %s of a %s request is %r, not %r" % (what, k, x.get("action"), a, b)):
                return False
        return True


def run(run: fw.Run, sc: t.Dict) -> None:
    env = sc["env"]
    saved = {k: os.environ.pop(k) for k in ENV if k in os.environ}
    bundle = os.path.join(fw.scratch_dir(run), "bundle.pem")
    with open(bundle, "w") as f:
        f.write("x")
    case = str.lower if env.get("lower") else str.upper
    try:
        if env.get("proxy"):
            first = sc["clients"][0]["srv"]["name"] if sc["clients"] else "none"
            first = short(first)
            where = "http://%s:3128" % ("elsewhere.example" if env["proxy"] == "elsewhere" else proxy_name(first))
            for k in ("http_proxy", "https_proxy"):
                os.environ[case(k)] = where
        if env.get("no_proxy"):
            names = [short(x["srv"]["name"]).lower() for x in sc["clients"]]
            os.environ[case("no_proxy")] = ",".join(names) if env["no_proxy"] == "host" else env["no_proxy"]
        if env.get("bundle"):
            os.environ[env["bundle"]] = bundle
        cls = [Cl(run, x, i, env, bundle) for i, x in enumerate(sc["clients"])]
        nxt = [0] * len(cls)
        dead: t.Set[int] = set()
        for k in sc["order"]:
            if k >= len(cls) or k in dead or nxt[k] >= len(cls[k].sc["ops"]):
                continue
            c = cls[k]
            if c.want in ("elsewhere", "first"):  # that proxy leads nowhere: what matters is that nothing else is tried
                n0 = len(run.net.attempts)
                c.run.call((c.ses.pool or c.ses.shell).open)
                want = ("elsewhere.example", 3128) if c.want == "elsewhere" else (proxy_name(cls[0].h.name), 3128)
                for _, host, port, _ in run.net.attempts[n0:]:
                    run.check((host, port) == want, "where", "connected to %s:%s though the environment names a proxy" % (host, port))
                dead.add(k)
                run.cover["env-proxy"] += 1
                continue
            if not c.step(nxt[k]):
                return
            nxt[k] += 1
            run.cover["op:%s" % c.sc["proxy"]] += 1
            if c.done:
                dead.add(k)
    finally:
        for k in ENV:
            os.environ.pop(k, None)
        os.environ.update(saved)
