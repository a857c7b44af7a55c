"""P13: secure strings round-trip, key exchange works or fails in bounded time, plaintext never travels."""
from __future__ import annotations

import base64
import random
import re
import typing as t

from .. import clixml as cx
from .. import fw, values
from . import common as c
from . import p07

RUNS = {"quick": 2600, "thorough": 140000}


# ---- secrets --------------------------------------------------------------------------------------


def secret(rng: random.Random, big: int = 0) -> str:
    """A secret; most are long enough to be looked for on the wire."""
    r = rng.random()
    if r < 0.35:
        return values.text(rng, big)
    n = rng.choice([8, 9, 15, 16, 17, 31, 32, 33, 60])
    core = "".join(rng.choice("ABCDEFGHJKLMNPQRSTUVWXYZabcdefghjkmnpqrstuvwxyz23456789") for _ in range(n))
    if r < 0.5:
        core += rng.choice(["\u00e9\u4e2d", "_x0041_", "<&>", "\n", "\U0001f600", "\x00"])
    elif r < 0.58:  # what a codec could take for a mark of its own or for padding
        core = rng.choice(["\ufeff", "\ufffe", "\x00", "\u1010", "\u0a0a"]) + core + rng.choice(["", "\ufeff", "\u0101", "\u1010"])
    return core


def sspec(rng: random.Random, depth: int = 2, big: int = 0) -> t.List:
    r = rng.random()
    if r < 0.35:
        return ["tagged", secret(rng, big)]
    if r < 0.5:
        return ["ser", secret(rng, big)]
    if r < 0.65:
        return ["cred", values.text(rng), secret(rng)]
    if r < 0.75 or depth <= 0:
        return ["plain", values.text(rng)]
    if r < 0.88:
        return ["list", [sspec(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
    return ["dict", [["k%d" % i, sspec(rng, depth - 1)] for i in range(rng.randint(0, 3))]]


def secrets(s: t.Any) -> t.List[str]:
    if s[0] in ("tagged", "ser"):
        return [s[1]]
    if s[0] == "cred":
        return [s[2]]
    if s[0] == "list":
        return [x for y in s[1] for x in secrets(y)]
    if s[0] == "dict":
        return [x for _, y in s[1] for x in secrets(y)]
    return []


def mk(s: t.List, pool: t.Any) -> t.Any:
    from pypsrp.complex_objects import ObjectMeta, PSCredential
    from pypsrp.serializer import TaggedValue

    if s[0] == "tagged":
        return TaggedValue("SS", s[1])
    if s[0] == "ser":
        return pool.serialize(s[1], ObjectMeta("SS"))
    if s[0] == "cred":
        return PSCredential(username=s[1], password=s[2])
    if s[0] == "list":
        return [mk(x, pool) for x in s[1]]
    if s[0] == "dict":
        return {k: mk(x, pool) for k, x in s[1]}
    return s[1]


def sdiff(s: t.List, v: t.Any) -> t.Optional[str]:
    """Why the tree the server decoded is not what the caller gave."""
    if s[0] in ("tagged", "ser"):
        return None if v == ["SS", s[1]] else "secure string %.80r arrived as %.120r" % (s[1], v)
    if s[0] == "plain":
        return None if v == ["S", s[1]] else "string %.80r arrived as %.120r" % (s[1], v)
    if v[0] != "Obj":
        return "%r arrived as %.120r" % (s[0], v)
    if s[0] == "cred":
        u, p = cx.get(v, "UserName"), cx.get(v, "Password")
        return None if (u, p) == (["S", s[1]], ["SS", s[2]]) else "credential %r arrived as %.200r" % (s, (u, p))
    if s[0] == "list":
        got = v[1].get("items") or []
        if len(got) != len(s[1]):
            return "list of %d arrived with %d" % (len(s[1]), len(got))
        return next((d for d in (sdiff(a, b) for a, b in zip(s[1], got)) if d), None)
    got = v[1].get("dct") or []
    if [k for k, _ in got] != [["S", k] for k, _ in s[1]]:
        return "dictionary keys %r arrived as %r" % ([k for k, _ in s[1]], [k for k, _ in got])
    return next((d for d in (sdiff(a[1], b[1]) for a, b in zip(s[1], got)) if d), None)


def out_tree(rng: random.Random, depth: int = 1) -> cx.Tree:
    ss: cx.Tree = ["SS", secret(rng, 4000)]
    r = rng.random()
    if r < 0.5 or depth <= 0:
        return ss
    if r < 0.7:
        return cx.lst([out_tree(rng, depth - 1) for _ in range(rng.randint(0, 3))])
    if r < 0.85:
        return cx.dct([[cx.S("k%d" % i), out_tree(rng, depth - 1)] for i in range(rng.randint(0, 3))])
    return cx.obj(tn=["System.Management.Automation.PSCustomObject", "System.Object"], ms=[("Name", ss), ("Id", cx.S(values.text(rng)))])


# ---- scenarios ------------------------------------------------------------------------------------


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    srv["by_name"] = True
    fr = srv["pool"].get("frag")
    if isinstance(fr, list) and fr[0] < 100:  # a key in crumbs takes minutes to fetch
        srv["pool"]["frag"] = [100, max(100, fr[1])]
    r = rng.random()
    if r < 0.25:
        srv["pool"]["key"] = rng.choice([0.5, 5.0, 15.0, 40.0, 70.0])
    elif r < 0.35:
        srv["pool"]["key"] = "never"
    npools = rng.choice([1, 1, 2])
    ops: t.List[t.List] = []
    plans: t.List[t.List] = []
    for _ in range(rng.choice([2, 4, 8, 12])):
        k = rng.randrange(npools)
        r = rng.random()
        if r < 0.18:
            ops.append([k, "exchange"])
        elif r < 0.26:
            ops.append([k, "keyreq"])
        elif r < 0.32:
            ops.append([k, "cycle"])
        elif r < 0.36:
            ops.append([k, "adopt"])
        elif r < 0.4:
            ops.append([k, "app", [sspec(rng, 1) for _ in range(rng.randint(1, 2))]])
        else:
            big = rng.choice([0, 0, 0, 9000])
            args = [sspec(rng, 2, big) for _ in range(rng.randint(0, 3))]
            inp = [sspec(rng, 1) for _ in range(rng.randint(0, 3))] if rng.random() < 0.4 else None
            plan: t.List = []
            hosts: t.List = []
            if rng.random() < 0.15:
                plan.append(["pool", ["keyreq"], "pipe"])
            if rng.random() < 0.6:
                plan.append(["echo_args"])
            if inp is not None:
                plan.append([rng.choice(["wait_input", "echo_input"])])
            for _ in range(rng.randint(0, 4)):
                q = rng.random()
                if q < 0.5:
                    plan.append(["out", out_tree(rng)])
                elif q < 0.6:
                    plan.append(["rec", "information", [out_tree(rng), "src", []]])
                elif q < 0.75:
                    plan.append(["sleep", rng.choice([0.1, 3.0, 25.0])])
                elif q < 0.9:
                    plan.append(["host", 12, "ReadLineAsSecureString", [], True])
                    hosts.append(["ser", secret(rng)])
                else:
                    plan.append(["host", 25, "PromptForCredential2", [cx.S("cap"), cx.S("msg"), cx.S("u"), cx.S("t"), cx.I32(1), cx.I32(0)], True])
                    hosts.append(["cred", values.text(rng), secret(rng)])
            plan.append(["end", "Completed"])
            plans.append(plan)
            ops.append([k, "run", len(plans) - 1, args, inp, hosts, rng.choice(["arg", "param"])])
    srv["plans"] = plans
    fl: t.List = []
    if rng.random() < 0.3:
        ex = [i for i, o in enumerate(ops) if o[1] == "exchange"]
        if ex:
            on = rng.choice(["Send", "Receive"])
            kind = rng.choice(["http_err", "fault", "rst_before", "drop_req"] + (["drop_resp", "rst_after", "fin_after"] if on == "Send" else ["drop_resp"]))
            f: t.Dict[str, t.Any] = {"on": on, "n": 1, "kind": kind, "times": 1}
            if kind == "http_err":
                f.update(status=500, body="x", ctype="text/plain")
            elif kind == "fault":
                f["args"] = {"code": 5, "reason": "no"}
            fl.append([rng.choice(ex), f])
    return {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "n": npools, "ops": ops, "op_faults": fl, "key_timeout": rng.choice([None, None, 1000, 10000, 45000, 0])}


class P:
    def __init__(self, pool: t.Any, server: t.Any, answers: t.List) -> None:
        self.pool, self.server, self.answers = pool, server, answers
        self.has = False  # the client holds the key
        self.sent = False  # the server was given the client's public key
        self.maybe = False  # ... and the client was not told

    def asked(self, got: int) -> bool:
        """Is that the number of public keys the server may get when it asks for one?"""
        if self.maybe and not (self.has or self.sent):
            return got <= 1
        return got == (0 if self.has or self.sent else 1)


def mk_host(answers: t.List) -> t.Any:
    from pypsrp.host import PSHost, PSHostUserInterface

    class UI(PSHostUserInterface):
        def ReadLineAsSecureString(self, runspace, pipeline):
            return mk(answers.pop(0), runspace)

        def PromptForCredential2(self, runspace, pipeline, caption, message, user, target, types, options):
            return mk(answers.pop(0), runspace)

    return PSHost(None, None, False, "h", None, UI(), "1.0")


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.exceptions import InvalidPSRPOperation, SerializationError
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    w = run.wsman()
    kt = sc.get("key_timeout")
    limit = 60.0 if kt is None else kt / 1000.0
    ot = sc.get("ws", {}).get("operation_timeout", 20)
    mode = sc["srv"].get("pool", {}).get("key", "ok")
    hidden: t.List[str] = []
    ps_: t.List[P] = []

    def new() -> t.Any:
        answers: t.List = []
        pool = RunspacePool(w, host=mk_host(answers))
        if kt is not None:
            pool.session_key_timeout_ms = kt
        return pool, answers

    for _ in range(sc.get("n", 1)):
        pool, answers = new()
        if not run.must(run.call(pool.open), "open", "opening a pool"):
            return
        ps_.append(P(pool, h.all_shells[-1], answers))
    fired: t.List[t.Dict] = []
    h.on_fire = fired.append
    for i, op in enumerate(sc["ops"]):
        if op[0] >= len(ps_):
            continue
        p = ps_[op[0]]
        pool, sp = p.pool, p.server.pool
        o = op[1]
        run.settle(0.5)
        del fired[:]
        n0, k0 = len(h.requests), sp.public_keys
        run.cover["op:%s:%s" % (o, "key" if p.has else "nokey")] += 1
        if o == "exchange":
            armed = [h.arm(f) for j, f in sc.get("op_faults", []) if j == i]
            r = run.call(pool.exchange_keys)
            for f in armed:
                f["used"] = True
            if p.has:
                if not run.check(r.ok and len(h.requests) == n0, "again", "exchanging keys again %s and made %d requests" % (r, len(h.requests) - n0)):
                    return
                continue
            if not run.check(sp.public_keys - k0 <= (0 if p.sent else 1), "again", "the public key was sent %d times, already sent: %s" % (sp.public_keys - k0, p.sent)):
                return
            if fired and not r.ok:
                if any(f["kind"] in ("http_err", "fault", "rst_before") for f in fired) or any(f["on"] == "Send" for f in fired):
                    if fired[0]["on"] == "Receive":
                        p.sent = True
                    elif fired[0]["kind"] in ("drop_resp", "rst_after", "fin_after"):
                        p.maybe = True  # the server has the key, the client cannot know
                    run.cover["failed:" + fired[0]["on"]] += 1
                    continue
            if r.ok:
                if not run.check(sp.key is not None and mode != "never", "exchange", "exchanging keys returned and the server never answered"):
                    return
                p.has = p.sent = True
                continue
            p.sent = True
            wait = mode if isinstance(mode, (int, float)) else 1e9 if mode == "never" else 0.0
            if not run.check(isinstance(r.exc, InvalidPSRPOperation), "exchange", "exchanging keys %s" % r):
                return
            if not run.check(wait > limit - 5.0 or limit == 0.0 and not isinstance(mode, str) or fired, "exchange", "exchanging keys, answered after %r s within the %r s allowed, %s" % (wait, limit, r)):
                return
            if not run.check(fired or limit <= r.dur + 0.01 and r.dur <= limit + 2 * ot + 10.0, "time", "exchanging keys gave up after %.1f s, allowed %.1f s" % (r.dur, limit)):
                return
            run.cover["timeout"] += 1
            continue
        if o == "keyreq":
            sp.do(["keyreq"], p.server.target)
            r = run.call(pool.get_available_runspaces)
            if not run.must(r, "keyreq", "a call while the server asks for a key"):
                return
            if not run.check(p.asked(sp.public_keys - k0), "keyreq", "the server asked for a key and got %d (client already sent one: %s)" % (sp.public_keys - k0, p.sent)):
                return
            p.sent = True
            if p07.has_key(pool):
                p.has = True
            continue
        if o == "cycle":
            if not run.must(run.call(pool.disconnect), "cycle", "disconnecting") or not run.must(run.call(pool.connect), "cycle", "reconnecting"):
                return
            continue
        if o == "adopt":
            if mode == "never" or isinstance(mode, (int, float)):
                continue
            if not run.must(run.call(pool.disconnect), "adopt", "disconnecting"):
                return
            w = run.wsman()
            r = run.call(RunspacePool.get_runspace_pools, w)
            if not run.must(r, "adopt", "listing pools"):
                return
            mine = [x for x in r.value if str(x.id).upper() == p.server.id.upper()]
            if not run.check(len(mine) == 1, "adopt", "the pool is listed %d times" % len(mine)):
                return
            x = mine[0]
            x.host = mk_host(p.answers)
            if kt is not None:
                x.session_key_timeout_ms = kt
            if not run.must(run.call(x.connect), "adopt", "connecting from a new client"):
                return
            p.pool = x
            p.has = p.sent = p.maybe = False
            continue
        if o == "app":
            other, _ = new()
            s0 = len(h.all_shells)
            secs = [x for s in op[2] for x in secrets(s)]
            if not secs or any(s[0] == "ser" or contains_ser(s) for s in op[2]):
                continue
            r = run.call(other.open, {"a%d" % j: mk(s, other) for j, s in enumerate(op[2])})
            hidden += secs
            if not run.check(isinstance(r.exc, SerializationError) and len(h.all_shells) == s0, "refuse", "opening a pool with a secure string as application argument %s" % r):
                return
            continue
        # run
        _, _, k, args, inp, hosts, form = op
        plan = sc["srv"]["plans"][k] if k < len(sc["srv"]["plans"]) else []
        sec = [x for s in args + (inp or []) for x in secrets(s)]
        hidden += sec
        if not p.has:
            ask = any(st[0] == "pool" for st in plan)
            if any(st[0] == "host" for st in plan) or any("SS" in repr(st) for st in plan if st[0] in ("out", "rec")):
                continue  # the server has nothing to encrypt with
            if sp.key and not p.has and any(st[0] in ("echo_args", "echo_input") for st in plan):
                continue
            if sec:
                # refused before anything leaves
                ps = PowerShell(pool)
                ps.add_script("run %d" % k)
                r = run.call(lambda: [ps.add_argument(mk(s, pool)) for s in args])
                if r.ok:
                    r = run.call(lambda: ps.begin_invoke([mk(s, pool) for s in inp] if inp is not None else None))
                if not run.check(isinstance(r.exc, SerializationError), "refuse", "sending a secure string without a key %s" % r):
                    return
                if [x for s in args for x in secrets(s)] and not run.check(len(h.requests) == n0, "refuse", "a pipeline with a secure string was refused after %d requests" % (len(h.requests) - n0)):
                    return
                if not leak(run, h, hidden):
                    return
                run.cover["refused"] += 1
                continue
        ps = PowerShell(pool)
        ps.add_script("run %d" % k)
        for j, s in enumerate(args):
            v = mk(s, pool)
            ps.add_argument(v) if form == "arg" else ps.add_parameter("p%d" % j, v)
        p.answers[:] = list(hosts)
        hidden += [x for s in hosts for x in secrets(s)]
        np = len(sp.pipes)
        r = run.call(ps.invoke, [mk(s, pool) for s in inp] if inp is not None else None)
        if not run.must(r, "run", "running a pipeline with secure strings"):
            run.problems("refused")
            return
        pipe = sp.pipes[np] if len(sp.pipes) > np else None
        if not run.check(pipe is not None, "run", "the pipeline never reached the server"):
            return
        for j, (s, g) in enumerate(zip(args, pipe.args())):
            d = sdiff(s, g)
            if not run.check(not d, "send", "argument %d: %s" % (j, d)):
                return
        if not run.check(len(pipe.args()) == len(args) and len(pipe.inputs) == len(inp or []), "send", "%d arguments and %d inputs given, %d and %d arrived" % (len(args), len(inp or []), len(pipe.args()), len(pipe.inputs))):
            return
        for j, (s, g) in enumerate(zip(inp or [], pipe.inputs)):
            d = sdiff(s, g)
            if not run.check(not d, "send", "input %d: %s" % (j, d)):
                return
        for s, hc in zip(hosts, pipe.host_calls):
            if not run.check(len(hc["answers"]) == 1, "answer", "a host call was answered %d times" % len(hc["answers"])):
                return
            d = sdiff(s, hc["answers"][0]["mr"])
            if not run.check(not d, "answer", "host answer: %s" % d):
                return
        if not run.check(len(pipe.host_calls) == len(hosts), "answer", "%d of %d host calls made" % (len(pipe.host_calls), len(hosts))):
            return
        if any(st[0] == "pool" for st in plan):
            if not run.check(p.asked(sp.public_keys - k0), "keyreq", "the server asked for a key and got %d (client already sent one: %s)" % (sp.public_keys - k0, p.sent)):
                return
            p.sent = True
        if not c.check_pipe(run, pipe, ps, "receive"):
            return
        run.cover["secrets_sent"] += len(sec)
        if not leak(run, h, hidden):
            return
    leak(run, h, hidden)
    run.problems("refused", ("psrp", "dup", "soap"))


def contains_ser(s: t.Any) -> bool:
    if s[0] == "list":
        return any(contains_ser(x) for x in s[1])
    if s[0] == "dict":
        return any(contains_ser(x) for _, x in s[1])
    return s[0] == "ser"


B64 = re.compile(r"[A-Za-z0-9+/]{40,}={0,2}")


def leak(run: fw.Run, h: t.Any, hidden: t.List[str]) -> bool:
    """No request may carry a secret, in the body or in the fragments encoded in it."""
    look = [x.encode() for x in hidden if len(x) >= 8 and x[:8].isalnum() and x.isascii()]
    look += [x.encode("utf-16-le") for x in hidden if len(x) >= 8 and x[:8].isalnum() and x.isascii()]
    done = run.__dict__.setdefault("_scanned", 0)
    run._scanned = len(h.requests)  # type: ignore[attr-defined]
    for x in h.requests[done:]:
        soap = x["soap"] if isinstance(x["soap"], bytes) else x["soap"].encode()
        blobs = [soap]
        for m in B64.findall(soap.decode("utf-8", "replace")):
            try:
                blobs.append(base64.b64decode(m + "=" * (-len(m) % 4)))
            except ValueError:
                pass
        for s in look:
            for b in blobs:
                if s in b:
                    run.bad("leak", "a %s request carries a secure string in the clear" % x["action"])
                    return False
    return True
