"""P23: missing, repeated, reordered or cut fragments are never turned into data."""
from __future__ import annotations

import random
import struct
import typing as t
import uuid

from .. import fw, values
from . import common as c

RUNS = {"quick": 1300, "thorough": 80000}
HOW = ("missing", "missing", "missing_last", "repeat", "repeat", "swap", "shuffle", "cut", "cut", "cut_header")
OPENING = ("SESSION_CAPABILITY", "APPLICATION_PRIVATE_DATA", "RUNSPACEPOOL_STATE", "RUNSPACEPOOL_INIT_DATA")


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    srv["pool"]["frag"] = rng.choice([60, 200, 500, [1, 60], [20, 500], [100, 2000], 32768])
    npipes = rng.choice([1, 1, 2, 3])
    plans = [c.gen_plan(rng, rng.choice([2, 5, 10]), rng.choice([0, 0, 3000])) for _ in range(npipes)]
    for p in plans:
        if not any(st[0] == "out" for st in p):
            p.insert(0, ["out", values.tree(rng, 1)])
    srv["plans"] = plans
    muts = []
    if rng.random() < 0.9:
        for _ in range(rng.choice([1, 1, 1, 2])):
            muts.append({"pipe": rng.randrange(npipes), "msg": rng.randrange(6), "how": rng.choice(HOW), "at": rng.randrange(40), "n": rng.randint(1, 20), "swap": rng.randrange(40)})
    sc: t.Dict[str, t.Any] = {
        "net": fw.gen_net(rng),
        "srv": srv,
        "ws": ws,
        "muts": muts,
        "modes": [rng.choice(["end", "end", "poll"]) for _ in range(npipes)],
        "order": [rng.randrange(8) for _ in range(20)],
    }
    if rng.random() < 0.2:
        # several fragments to a response, in one stream element: what a cut one lacks is made up from the next
        srv["pool"]["frag"] = rng.choice([30, 60, 120])
        srv["coalesce"] = 1.0
        srv["resp_units"] = rng.choice([[2, 3], [2, 5], [3, 4], [4, 4]])
        srv["pool"]["interleave"] = True
        for _ in range(3):
            plans[0].insert(0, ["out", ["S", values.mk_big(rng, rng.choice([100, 400]))]])
        sc["muts"] = [{"pipe": 0, "msg": rng.randrange(3), "how": "cut", "at": rng.choice([-2, -2, -2, rng.randrange(12)]), "n": rng.randint(1, 20), "swap": 0}]
    elif rng.random() < 0.12:
        sc["opening"] = {"msg": rng.randrange(3), "how": rng.choice([x for x in HOW if x != "missing_last"]), "at": rng.randrange(20), "n": rng.randint(1, 20), "swap": rng.randrange(20)}
        sc["muts"] = []
    elif rng.random() < 0.25:
        srv["faults"] = [{"on": "Receive", "n": rng.randint(2, 8), "times": 1, "kind": "trunc_resp", "how": rng.choice(["fin", "rst"])}]
    return sc


def damage(frags: t.List[bytes], m: t.Dict, tail: bool) -> t.Tuple[t.List[bytes], str]:
    """The fragments of one message as they arrive, and what the client can tell from them alone:
    "raise" (detectable), "lost" (the message simply never completes), "copy" (nothing that matters) or ""
    (nothing was changed)."""
    how, n = m["how"], len(frags)
    out = list(frags)
    at = m["at"] % n
    if how == "missing":
        if n == 1:
            return frags, ""
        at %= n - 1
        del out[at]
        return out, "raise"
    if how == "missing_last":
        if n == 1 or tail:
            return frags, ""
        del out[-1]
        return out, "lost"
    if how == "repeat":
        if n == 1:
            return frags, ""
        if tail:
            at %= n - 1
        out.insert(at + 1 + m["swap"] % (n - at), frags[at])
        if out[:n] == frags and (tail or at == 0):
            return out, "copy"  # after the message was complete: nobody reads on, or it looks like the start of another
        return out, "raise"
    if how in ("swap", "shuffle"):
        if n == 1:
            return frags, ""
        if how == "swap":
            b = m["swap"] % n
            if b == at:
                b = (b + 1) % n
            out[at], out[b] = out[b], out[at]
        else:
            random.Random(m["at"] * 100 + m["swap"]).shuffle(out)
            if out == frags:
                out.reverse()
        return out, "raise"
    f = frags[at]
    if how == "cut":
        k = min(m["n"], len(f) - 21)
        if k < 1:
            return frags, ""
        out[at] = f[:-k]
        return out, "raise"
    out[at] = f[: m["n"]]
    return out, "raise"


def subseq(exp: t.Sequence[t.Any], got: t.Sequence[t.Any], diff: t.Callable[[t.Any, t.Any], t.Optional[str]]) -> t.Optional[t.Any]:
    """The first element of got that is not the next of some subsequence of exp (None: it is one)."""
    i = 0
    for g in got:
        while i < len(exp) and diff(exp[i], g):
            i += 1
        if i == len(exp):
            return ("unexpected", g)
        i += 1
    return None


def intact(run: fw.Run, p: t.Any, ps: t.Any, what: str) -> bool:
    exp = [x for k, x in p.sent if k == "output"]
    d = subseq(exp, ps.output, lambda e, g: values.diff(e, g))
    if d is not None:
        run.bad("data", "%s delivered %.300r, which is not among the %d objects that arrived whole and in order" % (what, d[1], len(exp)))
        return False
    for kind in c.KINDS:
        if len(getattr(ps.streams, kind)) > sum(1 for k, x in p.sent if k in (kind, "state")):
            run.bad("data", "%s holds more %s records than were sent" % (what, kind))
            return False
        exp = [x for k, x in p.sent if k == kind]
        if kind == "error":
            exp += [("state", x[1]) for k, x in p.sent if k == "state" and x[1] is not None]
        d = subseq(exp, getattr(ps.streams, kind), lambda e, g: c.vdiff(e[1][1].get("ts"), str(g)) if isinstance(e, tuple) and e[0] == "state" else c.record_diff(kind, e, g))
        if d is not None:
            why = [c.record_diff(kind, e, d[1]) for e in exp if not isinstance(e, tuple)][:3]
            run.bad("data", "%s delivered the %s record %.300r, which is not among those that arrived whole (%s)" % (what, kind, d[1], why))
            return False
    return True


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    w = run.wsman()
    pool = RunspacePool(w)
    seen: t.Dict[str, int] = {}
    hit: t.Dict[str, t.List[str]] = {}  # pipeline id -> what was done to its messages
    order: t.List[str] = []
    opening = sc.get("opening")
    opened: t.List[str] = []

    def mutate(mtype: str, frags: t.List[bytes], oid: int) -> t.List[bytes]:
        if opening is not None and pool.state != 2 and mtype in OPENING:
            seen["open"] = seen.get("open", -1) + 1
            if seen["open"] == opening["msg"]:
                # nothing of a repeated last piece need be looked at once the pool is open
                frags, what = damage(frags, opening, mtype == "RUNSPACEPOOL_STATE")
                if what in ("raise", "copy"):
                    opened.append(what)
            return frags
        pid = str(uuid.UUID(bytes_le=b"".join(f[21:] for f in frags)[24:40])).upper()
        if mtype not in ("PIPELINE_OUTPUT", "PIPELINE_STATE") and not mtype.endswith("_RECORD") or pid not in order:
            return frags
        i = seen[pid] = seen.get(pid, -1) + 1
        for m in sc["muts"]:
            if m["pipe"] == order.index(pid) and m["msg"] == i:
                frags, what = damage(frags, m, mtype == "PIPELINE_STATE")
                if what:
                    hit.setdefault(pid, []).append(what)
                    run.cover["damage:" + m["how"]] += 1
                    run.sim.log("damage", m["how"], mtype, i)
                break
        return frags

    h.frag_mutator = mutate
    r = run.call(pool.open)
    if opened:
        run.cover["damage:opening"] += 1
        if opened[0] == "raise":
            run.check(not r.ok, "opened", "opening a pool succeeded although fragments of the server's answer were damaged (%s)" % opening["how"])
        return
    if not r.ok and run.sim.fired:
        return
    if not run.must(r, "open", "opening a pool whose messages arrived intact"):
        return
    pss = []
    for i in range(len(sc["srv"].get("plans", []))):
        ps = PowerShell(pool)
        ps.add_script("run %d" % i)
        order.append(str(ps.id).upper())
        if not run.must(run.call(ps.begin_invoke), "run", "starting a pipeline"):
            return
        pss.append(ps)
    failed: t.Dict[int, int] = {}
    steps = list(sc.get("order", []))
    todo = [steps.pop(0) % len(pss) for _ in range(len(steps))] + list(range(len(pss)))
    final = len(todo) - len(pss)
    for j, i in enumerate(todo):
        ps = pss[i]
        pid = str(ps.id).upper()
        p = c.pipe_of(h, ps)
        tries = 0
        while ps.state == 1 and tries < 400:
            tries += 1
            fired = len(run.sim.fired)
            mode = sc["modes"][i] if i < len(sc["modes"]) else "end"
            r = run.call(ps.end_invoke) if j >= final and mode == "end" and not failed.get(i) and "lost" not in hit.get(pid, ()) else run.call(ps.poll_invoke)
            cause = len(run.sim.fired) > fired
            if not r.ok:
                if not cause and not failed.get(i) and not {"raise", "copy"} & set(hit.get(pid, ())):
                    run.bad("raised", "pipeline %d %s although every fragment for it arrived intact" % (i, r))
                    return
                failed[i] = failed.get(i, 0) + 1
            elif cause:
                run.bad("cut", "pipeline %d took a response that was cut short as a good one" % i)
                return
            if not intact(run, p, ps, "pipeline %d (%s)" % (i, ", ".join(hit.get(pid, [])) or "undamaged")):
                return
            if j < final or failed.get(i, 0) > 6:
                break
    for i, ps in enumerate(pss):
        pid = str(ps.id).upper()
        p = c.pipe_of(h, ps)
        if failed.get(i):
            continue
        if "raise" in hit.get(pid, ()):
            run.bad("silent", "pipeline %d ended in state %d and nothing was raised although fragments for it were damaged" % (i, ps.state))
            return
        if "lost" not in hit.get(pid, ()):
            c.check_pipe(run, p, ps, "others", "pipeline %d, whose fragments were intact," % i)
        elif not run.check(ps.state == c.final_state(p), "state", "pipeline %d is in state %d, the server reported %s" % (i, ps.state, p.state)):
            return
    run.settle(1.0)
    run.must(run.call(pool.close), "close", "closing the pool")
