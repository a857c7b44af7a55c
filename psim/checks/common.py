"""Pieces shared by the checks."""
from __future__ import annotations

import random
import typing as t

from .. import clixml as cx
from .. import fw, server, values, wire

STATES = {"NotStarted": 0, "Running": 1, "Stopping": 2, "Stopped": 3, "Completed": 4, "Failed": 5, "Disconnected": 6}
KINDS = ("error", "debug", "verbose", "warning", "progress", "information")


def vdiff(exp: t.Any, got: t.Any) -> t.Optional[str]:
    return None if exp == got and type(exp) is type(got) else "expected %.80r, got %.80r" % (exp, got)


def _inv_diff(inv: t.Dict, rec: t.Any) -> t.Optional[str]:
    exp = {
        "invocation_name": inv["name"],
        "invocation_bound_parameters": dict((k, v) for k, v in inv["bound"]),
        "invocation_unbound_arguments": list(inv["unbound"]),
        "invocation_expecting_input": bool(inv["expect"]),
        "invocation_line": inv["line"],
        "invocation_offset_in_line": inv["offset"],
        "invocation_script_line_number": inv["num"],
        "invocation_history_id": inv["hist"],
        "invocation_pipeline_iteration_info": [0, 1],
        "command_name": inv["name"],
        "command_definition": "def " + inv["name"],
    }
    for k, v in exp.items():
        d = vdiff(v, getattr(rec, k, None))
        if d:
            return k + " " + d
    return None


def record_diff(kind: str, payload: t.Any, rec: t.Any) -> t.Optional[str]:
    """Why a stream record differs from the one emitted (None: equal)."""
    inv = None
    if isinstance(payload, dict):
        inv, payload = payload["inv"], payload["msg"]
    if kind == "error":
        for attr, exp in (("fq_error", "Err"), ("category", 0), ("message", "cat: " + payload), ("reason", "Reason"), ("activity", "act"), ("target_name", "tn"), ("target_type", "tt")):
            d = vdiff(exp, getattr(rec, attr, None))
            if d:
                return attr + " " + d
        d = vdiff(payload, str(rec))
        if d:
            return "text " + d
        exc = getattr(rec, "exception", None)
        d = vdiff(payload, getattr(exc, "adapted_properties", {}).get("Message"))
        if d:
            return "exception message " + d
    elif kind in ("debug", "verbose", "warning"):
        if type(rec).__name__.lower() != kind + "record":
            return "%s record came back as %s" % (kind, type(rec).__name__)
        d = vdiff(payload, rec.message)
        if d:
            return "message " + d
    elif kind == "progress":
        act, aid, desc, pct = payload
        for attr, exp in (("activity", act), ("activity_id", aid), ("description", desc), ("percent_complete", pct), ("parent_activity_id", -1), ("seconds_remaining", -1), ("current_operation", None)):
            d = vdiff(exp, getattr(rec, attr))
            if d:
                return attr + " " + d
    elif kind == "information":
        data, source, tags = payload
        d = values.diff(data, rec.message_data)
        if d:
            return "message_data " + d
        for attr, exp in (("source", source), ("tags", tags), ("user", "user"), ("computer", "host"), ("pid", 4), ("native_thread_id", 5), ("managed_thread_id", 6)):
            d = vdiff(exp, getattr(rec, attr))
            if d:
                return attr + " " + d
    if inv is not None:
        d = _inv_diff(inv, rec)
        if d:
            return d
    return None


def compare_output(exp: t.Sequence[cx.Tree], got: t.Sequence[t.Any], what: str) -> t.Optional[str]:
    for i in range(max(len(exp), len(got))):
        if i >= len(got):
            return "%s: %d of %d objects delivered; missing %.100r" % (what, len(got), len(exp), exp[i])
        if i >= len(exp):
            return "%s: extra object %.100r after the %d emitted" % (what, got[i], len(exp))
        d = values.diff(exp[i], got[i])
        if d:
            return "%s: object %d of %d: %s" % (what, i, len(exp), d)
    return None


def compare_streams(pipe: t.Any, ps: t.Any, start: t.Optional[t.Dict[str, int]] = None, out_start: int = 0) -> t.Optional[str]:
    """Everything the server pipeline emitted against everything the PowerShell object holds."""
    d = compare_output([p for k, p in pipe.sent if k == "output"], ps.output[out_start:], "output")
    if d:
        return d
    exp: t.Dict[str, t.List] = {k: [] for k in KINDS}
    for k, p in pipe.sent:
        if k in exp:
            exp[k].append(p)
        elif k == "state" and p[1] is not None:
            exp["error"].append(("state", p[1]))
    for k in KINDS:
        got = getattr(ps.streams, k)[(start or {}).get(k, 0) :]
        if len(got) != len(exp[k]):
            return "%s stream: %d records delivered, %d emitted" % (k, len(got), len(exp[k]))
        for i, (e, g) in enumerate(zip(exp[k], got)):
            if isinstance(e, tuple):
                d = vdiff(e[1][1].get("ts"), str(g))
            else:
                d = record_diff(k, e, g)
            if d:
                return "%s stream record %d: %s" % (k, i, d)
    return None


def final_state(pipe: t.Any) -> int:
    return STATES[pipe.state]


def check_pipe(run: fw.Run, pipe: t.Any, ps: t.Any, code: str, what: str = "pipeline") -> bool:
    d = compare_streams(pipe, ps)
    if d:
        run.bad(code, "%s: %s" % (what, d))
        return False
    if ps.state != final_state(pipe):
        run.bad(code + ".state", "%s: state %s, the server reported %s" % (what, ps.state, pipe.state))
        return False
    return True


def pipe_of(h: server.Host, ps: t.Any) -> t.Any:
    for sh in h.all_shells:
        if sh.pool is not None:
            for p in sh.pool.pipes:
                if p.pid == str(ps.id).upper():
                    return p
    return None


def pipes_of(h: server.Host, ps: t.Any) -> t.List[t.Any]:
    return [p for sh in h.all_shells if sh.pool is not None for p in sh.pool.pipes if p.pid == str(ps.id).upper()]


# ---- generators -----------------------------------------------------------------------------------


def gen_plan(rng: random.Random, n: int = 8, big: int = 0, end: t.Optional[str] = None, sleeps: t.Sequence[float] = (0.05, 3.0, 25.0, 70.0), depth: int = 2, pool_msgs: bool = False) -> t.List:
    plan: t.List = []
    for _ in range(rng.randint(0, n)):
        r = rng.random()
        if r < 0.5:
            plan.append(["out", values.tree(rng, depth, big if rng.random() < 0.3 else 0)])
        elif r < 0.8:
            plan.append(fw.gen_record(rng, big if rng.random() < 0.1 else 0))
        elif pool_msgs and r < 0.87:
            plan.append(["pool", gen_pool_msg(rng), rng.choice(["pipe", "pool"])])
        else:
            plan.append(["sleep", rng.choice(sleeps)])
    e = end or rng.choice(["Completed", "Completed", "Completed", "Failed", "Stopped"])
    if e == "Failed" and rng.random() < 0.75:
        plan.append(["end", "Failed", wire.error_record(values.text(rng))])
    elif e == "Stopped" and rng.random() < 0.5:
        plan.append(["end", "Stopped", wire.error_record("stopped")])
    else:
        plan.append(["end", e])
    return plan


def gen_pool_msg(rng: random.Random) -> t.List:
    r = rng.random()
    if r < 0.6:
        return ["event", rng.randint(0, 99), values.text(rng), values.tree(rng, 1)]
    return ["private", [[cx.S("k%d" % i), values.prim_tree(rng)] for i in range(rng.randint(0, 2))]]


def receive_faults(rng: random.Random, count: int, read_timeout: float, max_run: int = 5) -> t.List[t.Dict]:
    """Faults the Receive retry rule covers: at most max_run lost answers in a row, separated by good ones."""
    out = []
    n = rng.randint(1, 4)
    for _ in range(count):
        times = rng.choice([1, 1, 2, rng.randint(1, max_run)])
        kind = rng.choice(["drop_req", "drop_resp", "drop_resp", "delay_resp"])
        f: t.Dict[str, t.Any] = {"on": "Receive", "n": n, "times": times, "kind": kind}
        if kind == "delay_resp":
            f["secs"] = rng.choice([0.5, read_timeout + 5])
        out.append(f)
        n += times + rng.randint(1, 6)
    return out
