"""P26: events, warnings, private data and limits of the pool arrive exactly once, whatever else is going on."""
from __future__ import annotations

import random
import typing as t
import uuid

from .. import clixml as cx
from .. import fw, values, wire
from . import common as c

RUNS = {"quick": 1400, "thorough": 200000}


def gen_event(rng: random.Random) -> t.List:
    return [
        "event",
        rng.randint(0, 3),
        values.text(rng),
        values.tree(rng, 2),
        values.tree(rng, 1),
        [values.tree(rng, 1) for _ in range(rng.randint(0, 3))],
        values.text(rng),
        str(uuid.UUID(int=rng.getrandbits(128))),
    ]


def gen_msg(rng: random.Random, pool: bool) -> t.List:
    r = rng.random()
    if r < 0.55:
        return gen_event(rng)
    if r < 0.75 or not pool:
        return ["private", [[cx.S("k%d" % i if rng.random() < 0.7 else values.text(rng) + "%d" % i), values.tree(rng, 1)] for i in range(rng.randint(0, 4))]]
    if r < 0.9:
        return ["warning", values.text(rng)]
    return ["init", rng.randint(1, 9), rng.randint(1, 99)]


def gen_meta(rng: random.Random) -> t.Dict:
    def some() -> t.Optional[str]:
        return rng.choice([None, "", values.text(rng), values.text(rng)])

    params = []
    for i in range(rng.choice([0, 0, 1, 3, 8])):
        params.append(["P%d%s" % (i, rng.choice(["", "-x_y", "é"])), rng.choice([None, "System.String", values.text(rng)]), [values.text(rng) for _ in range(rng.randint(0, 3))], rng.random() < 0.5, rng.random() < 0.5])
    return {"name": values.text(rng), "ns": some(), "uri": some(), "type": rng.choice([1, 2, 8, 0x20]), "out": [values.text(rng) for _ in range(rng.randint(0, 3))], "params": params}


def gen_meta_plan(rng: random.Random) -> t.Dict:
    items = [gen_meta(rng) for _ in range(rng.choice([0, 1, 2, 5, 12]))]
    return {"items": items, "gaps": [[rng.randint(0, len(items)), rng.choice([["sleep", rng.choice([0.05, 3.0, 25.0])], ["pool", gen_msg(rng, False), "pipe"], ["pool", gen_msg(rng, True), "pool"]])] for _ in range(rng.randint(0, 3))]}


def meta_steps(m: t.Dict) -> t.List:
    out: t.List = []
    for i in range(len(m["items"]) + 1):
        out += [g for at, g in m["gaps"] if at == i]
        out.append(["out", wire.command_metadata_count(len(m["items"])) if i == 0 else wire.command_metadata(m["items"][i - 1])])
    return out + [["end", "Completed"]]


def gen(rng: random.Random, tier: str) -> t.Dict:
    srv = fw.gen_srv(rng)
    ws = fw.gen_ws(rng)
    srv["by_name"] = True
    nplans = rng.randint(1, 4)
    plans = []
    for _ in range(nplans):
        plan = c.gen_plan(rng, rng.choice([3, 8]), depth=1, sleeps=(0.05, 3.0, 25.0))
        for _ in range(rng.choice([0, 2, 6])):
            where = rng.choice(["pipe", "pool"])
            plan.insert(rng.randrange(len(plan)), ["pool", gen_msg(rng, where == "pool"), where])
        plans.append(plan)
    srv["plans"] = plans
    if rng.random() < 0.3:
        srv["pool"].setdefault("open", {})["private"] = gen_private(rng)
    ops: t.List[t.List] = []
    for _ in range(rng.choice([3, 6, 12])):
        r = rng.random()
        if r < 0.3:
            ops.append(["begin", rng.randrange(nplans)])
        elif r < 0.45:
            ops.append(["poll", rng.randrange(4)])
        elif r < 0.55:
            ops.append(["wait", rng.randrange(4)])
        elif r < 0.65:
            ops.append(["avail"])
        elif r < 0.75:
            ops.append([rng.choice(["min", "max"]), rng.randint(1, 50)])
        elif r < 0.83:
            types = rng.choice([0x1FF, 8, 1 | 2, 0x40])
            ops.append(["meta", [values.text(rng) for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else values.text(rng), types, rng.choice([None, [values.text(rng)]]), rng.choice([None, [values.text(rng), 7]]), gen_meta_plan(rng)])
        elif r < 0.95:
            ops.append(["emit", [gen_msg(rng, True) for _ in range(rng.randint(1, 5))]])
        else:
            ops.append(["sleep", rng.choice([0.5, 30.0])])
    srv["pool"]["avail"] = []
    for _ in range(12):
        a: t.Dict[str, t.Any] = {}
        if rng.random() < 0.3:
            a["delay"] = rng.choice([0.05, 2.0, 25.0])
        if rng.random() < 0.2:
            a["ok"] = False
        for k in ("before", "after"):
            if rng.random() < 0.4:
                a[k] = [gen_msg(rng, True) for _ in range(rng.randint(1, 4))]
        srv["pool"]["avail"].append(a)
    return {"net": fw.gen_net(rng), "srv": srv, "ws": ws, "ops": ops, "faults": c.receive_faults(rng, rng.choice([1, 3]), ws.get("read_timeout", 30)) if rng.random() < 0.35 else []}


def gen_private(rng: random.Random) -> t.List:
    return [[cx.S("k%d" % i), values.tree(rng, 1)] for i in range(rng.randint(0, 3))]


def run(run: fw.Run, sc: t.Dict) -> None:
    from pypsrp.exceptions import InvalidPSRPOperation
    from pypsrp.powershell import PowerShell, RunspacePool

    h = run.host(sc["srv"])
    pool = RunspacePool(run.wsman(), min_runspaces=2, max_runspaces=5)
    if not run.must(run.call(pool.open), "open", "opening a pool with no fault on it"):
        return
    srv = h.all_shells[0].pool
    home = h.all_shells[0].target
    for f in sc.get("faults", []):
        h.arm(f)
    pipes: t.List[t.Any] = []
    for op in sc["ops"]:
        o = op[0]
        if o == "begin":
            ps = PowerShell(pool)
            ps.add_script("run %d" % op[1])
            if not run.must(run.call(ps.begin_invoke), "begin", "begin_invoke"):
                return
            pipes.append(ps)
        elif o in ("poll", "wait"):
            if len(pipes) > op[1] and pipes[op[1]].state == 1:
                ps = pipes[op[1]]
                if not run.must(run.call(ps.poll_invoke, 5) if o == "poll" else run.call(ps.end_invoke), o, o + "ing for a pipeline"):
                    return
        elif o == "avail":
            r = run.call(pool.get_available_runspaces)
            if not run.must(r, "call", "asking for the available runspaces") or not run.check(r.value == srv.calls[-1]["answer"], "call", "get_available_runspaces() %s, the server answered %r" % (r, srv.calls[-1]["answer"])):
                return
        elif o in ("min", "max"):
            n0 = len(srv.calls)
            r = run.call(setattr, pool, o + "_runspaces", op[1])
            if len(srv.calls) == n0:
                if not run.must(r, "call", "setting a limit to what it is"):
                    return
            elif not run.check(r.ok if srv.calls[-1]["answer"] else isinstance(r.exc, InvalidPSRPOperation), "call", "setting a limit, answered %r, %s" % (srv.calls[-1]["answer"], r)):
                return
        elif o == "meta":
            if not metadata(run, h, pool, srv, op):
                return
        elif o == "emit":
            for m in op[1]:
                srv.do(m, home)
        else:
            run.settle(op[1])
        if not seen(run, h, pool, srv, home, pipes, None):
            return
    for i, ps in enumerate(pipes):
        if ps.state == 1 and not run.must(run.call(ps.end_invoke), "wait", "waiting for a pipeline"):
            return
        if not c.check_pipe(run, c.pipe_of(h, ps), ps, "data", "pipeline %d" % i):
            return
    run.settle(300.0)
    # everything sent before the answer to this call has arrived when it returns
    r = run.call(pool.get_available_runspaces)
    if not run.must(r, "call", "asking for the available runspaces"):
        return
    seen(run, h, pool, srv, home, pipes, srv.calls[-1])
    if run.viol:
        return
    run.must(run.call(pool.close), "close", "closing")
    run.problems("refused", ("psrp", "dup", "soap"))


def seen(run: fw.Run, h: t.Any, pool: t.Any, srv: t.Any, home: t.Any, pipes: t.List, last: t.Optional[t.Dict]) -> bool:
    """What the pool object shows against what the server sent; with `last`, all that was sent before that answer must be there."""
    sent: t.List[t.Tuple[int, t.List, t.Any, bool]] = []  # position, message, stream, must have arrived
    cut = -1
    if last is not None:
        cut = next(i for i, (spec, _) in enumerate(srv.log) if spec[0] == "answer" and spec[1] is last)
    for i, (spec, tg) in enumerate(srv.log):
        sent.append((i, spec, tg, last is not None and (tg is not home or i < cut)))
    # events: in order per stream, nothing twice, nothing made up
    left: t.Dict[int, t.List] = {}
    for _, spec, tg, need in sent:
        if spec[0] == "event":
            left.setdefault(id(tg), []).append((spec, need))
    n = sum(len(v) for v in left.values())
    for k, ev in enumerate(pool.user_events):
        why = None
        for q in left.values():
            if q:
                why = event_diff(q[0][0], ev)
                if why is None:
                    q.pop(0)
                    break
        else:
            return run.check(False, "events", "event %d of %d recorded is none of those due (%d sent): %s" % (k, len(pool.user_events), n, why))
    lost = [s for q in left.values() for s, need in q if need]
    if not run.check(not lost, "events", "%d of %d events were never recorded, the first is %r" % (len(lost), n, lost[:1])):
        return False
    # warnings
    got = [str(w.message) for w in run.warned if w.category.__name__ == "RunspacePoolWarning"]
    exp = [(spec[1], need) for _, spec, _, need in sent if spec[0] == "warning"]
    ok = got == [x for x, _ in exp][: len(got)] and not any(need for _, need in exp[len(got) :])
    if not run.check(ok, "warnings", "warnings raised %r, the server sent %r" % (got, [x for x, _ in exp])):
        return False
    # private data: the newest of one of the streams
    cand: t.List[t.Any] = []
    must: t.Dict[int, int] = {}
    for i, spec, tg, need in sent:
        if spec[0] == "private":
            if need:
                must[id(tg)] = i
    for i, spec, tg, need in sent:
        if spec[0] == "private" and (last is None or i >= must.get(id(tg), -1)):
            cand.append(spec[1])
    data = pool.application_private_data
    if data is None:
        if not run.check(not must, "private", "no private data recorded"):
            return False
    else:
        diffs = [private_diff(x, data.data) for x in cand]
        if not run.check(any(d is None for d in diffs), "private", "private data %.200r is none of the %d the server sent last: %s" % (data.data, len(cand), diffs[-1:])):
            return False
    # limits
    if last is not None:
        lim = {"min": [2], "max": [5]}
        for i, spec, tg, need in sent:
            if spec[0] == "init":
                for k, v in zip(("min", "max"), spec[1:]):
                    lim[k] = [v] if need else lim[k] + [v]
            elif spec[0] == "answer" and spec[1]["type"].startswith("SET_") and spec[1]["answer"]:
                lim["max" if "MAX" in spec[1]["type"] else "min"] = [spec[1]["value"]]
        for k in lim:
            v = getattr(pool, k + "_runspaces")
            if not run.check(v in lim[k], "limits", "recorded %s is %r, the server's last word was %r" % (k, v, lim[k])):
                return False
        run.cover["events:%d" % min(9, n)] += 1
        run.cover["warnings:%d" % min(9, len(exp))] += 1
        run.cover["streams:%d" % len({id(tg) for _, spec, tg, _ in sent})] += 1
    return True


def event_diff(spec: t.List, ev: t.Any) -> t.Optional[str]:
    _, eid, source, data = spec[:4]
    for attr, exp in (("event_id", eid), ("source_id", source)):
        d = c.vdiff(exp, getattr(ev, attr))
        if d:
            return attr + " " + d
    d = values.diff(data, ev.data)
    if d:
        return "data " + d
    if len(spec) > 4:
        d = values.diff(spec[4], ev.sender)
        if d:
            return "sender " + d
        if not isinstance(ev.args, list):
            return "args %r" % (ev.args,)
        d = c.compare_output(spec[5], ev.args, "args")
        if d:
            return d
        for attr, exp in (("computer", spec[6]), ("runspace_id", uuid.UUID(spec[7]))):
            d = c.vdiff(exp, getattr(ev, attr))
            if d:
                return attr + " " + d
    return None


def private_diff(pairs: t.List, got: t.Any) -> t.Optional[str]:
    if not isinstance(got, dict) or len(got) != len(pairs):
        return "%d entries, got %.100r" % (len(pairs), got)
    for k, v in pairs:
        key = cx.prim(k)
        if key not in got:
            return "no entry %r" % key
        d = values.diff(v, got[key])
        if d:
            return "entry %r: %s" % (key, d)
    return None


def metadata(run: fw.Run, h: t.Any, pool: t.Any, srv: t.Any, op: t.List) -> bool:
    _, names, types, ns, args, plan = op
    h.meta.append(meta_steps(plan))
    n0 = len(srv.pipes)
    r = run.call(pool.get_command_metadata, names, types, ns, args)
    if not run.must(r, "meta", "asking for command metadata"):
        return False
    if not run.check(len(srv.pipes) == n0 + 1 and srv.pipes[n0].kind == "GET_COMMAND_METADATA", "meta", "the metadata query ran %d times" % (len(srv.pipes) - n0)):
        return False
    q = srv.pipes[n0].create
    want = names if isinstance(names, list) else [names]
    asked = [cx.prim(x) for x in cx.get(q, "Name")[1]["items"]]
    if not run.check(asked == want, "meta", "the server was asked for %r, not %r" % (asked, want)):
        return False
    ct = cx.get(q, "CommandType")
    v = cx.prim(ct) if ct[0] != "Obj" else ct[1].get("prim", [None, None])[1]
    if not run.check(v == types, "meta", "the server was asked for types %r, not %r" % (ct, types)):
        return False
    for key, exp in (("Namespace", ns), ("ArgumentList", args)):
        x = cx.get(q, key)
        have = None if x[0] == "Nil" else [cx.prim(y) for y in x[1]["items"]]
        if not run.check(have == exp, "meta", "the server was asked with %s %r, not %r" % (key, have, exp)):
            return False
    got = r.value
    if not run.check(len(got) == len(plan["items"]), "meta", "%d entries returned, the server sent %d" % (len(got), len(plan["items"]))):
        return False
    for i, (m, g) in enumerate(zip(plan["items"], got)):
        exp_ = {"name": m["name"], "namespace": m["ns"], "help_uri": m["uri"], "output_type": m["out"]}
        for k, e in exp_.items():
            d = c.vdiff(e, getattr(g, k))
            if not run.check(d is None, "meta", "entry %d: %s %s" % (i, k, d)):
                return False
        if not run.check(g.command_type.value == m["type"], "meta", "entry %d: command_type %r, sent %r" % (i, g.command_type.value, m["type"])):
            return False
        par = {p[0]: p for p in m["params"]}
        if not run.check(list(g.parameters) == list(par), "meta", "entry %d: parameters %r, sent %r" % (i, list(g.parameters), list(par))):
            return False
        for k, p in par.items():
            x = g.parameters[k]
            have_ = [x.name, x.parameter_type, x.aliases, x.switch_parameter, x.dynamic]
            if not run.check(have_ == p, "meta", "entry %d: parameter %r, sent %r" % (i, have_, p)):
                return False
    run.cover["meta:%d" % min(5, len(got))] += 1
    return True
