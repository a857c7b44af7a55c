"""Pipelines described as data: built with the real API, and an independent model of what the server must receive."""
from __future__ import annotations

import random
import typing as t

from .. import clixml as cx
from .. import fw, values
from . import common as c

STREAMS = ("error", "warning", "verbose", "debug", "information")
FIELD = {"error": "MergeError", "warning": "MergeWarning", "verbose": "MergeVerbose", "debug": "MergeDebug", "information": "MergeInformation"}
TO = {"none": 0, "output": 1, "null": 8}
TONAME = {0: "None", 1: "Output", 2: "Error", 3: "Warning", 8: "Null"}


def ver(v: str) -> t.Tuple[int, ...]:
    return tuple(int(x) for x in v.split("."))


def supported(stream: str, proto: str) -> bool:
    return stream == "error" or ver(proto) >= ((2, 3) if stream == "information" else (2, 2))


class MCmd:
    def __init__(self, text: str, script: bool, scope: t.Optional[bool]) -> None:
        self.text, self.script, self.scope = text, script, scope
        self.args: t.List[t.Tuple[t.Optional[str], t.Dict]] = []
        self.merge = {k: 0 for k in STREAMS}
        self.my = self.to = self.prev = 0
        self.end = False


class Model:
    """What the caller asked for."""

    def __init__(self, proto: str) -> None:
        self.proto = proto
        self.cmds: t.List[MCmd] = []

    def apply(self, op: t.List) -> bool:
        """False: the operation is not allowed and must raise without effect."""
        k = op[0]
        if k in ("cmdlet", "script", "command"):
            m = MCmd(op[1], k == "script" or k == "command" and bool(op[3]), op[2])
            if k == "command":
                for s, to in op[4]:
                    m.merge[s] = TO[to]
            self.cmds.append(m)
        elif k == "arg":
            self.cmds[-1].args.append((None, op[1]))
        elif k == "param":
            self.cmds[-1].args.append((op[1], op[2] if op[2] is not None else {"k": "none"}))
        elif k == "params":
            for n, v in op[1]:
                self.cmds[-1].args.append((n, v))
        elif k == "merge":
            s, to = op[1], op[2]
            if to not in (("none", "output") if s == "error" else TO) or not supported(s, self.proto):
                return False
            self._merge(s, to)
        elif k == "merge_all":
            if op[1] not in ("none", "output"):
                return False
            for s in STREAMS:
                if supported(s, self.proto):
                    self._merge(s, op[1])
        elif k == "merge_previous":
            self.cmds[-1].prev = 3 if op[1] else 0
        elif k == "merge_reset":
            self.cmds[-1].prev = 0
            for s in STREAMS:
                if supported(s, self.proto):
                    self._merge(s, "none")
        elif k == "stmt":
            self.cmds[-1].end = True
        elif k == "clear":
            self.cmds = []
        return True

    def _merge(self, s: str, to: str) -> None:
        cmd = self.cmds[-1]
        cmd.merge[s] = TO[to]
        if s == "error":
            cmd.my = 2 if to == "output" else 0
            cmd.to = TO[to]

    def statements(self) -> t.List[t.List[MCmd]]:
        out: t.List[t.List[MCmd]] = [[]]
        for cmd in self.cmds:
            out[-1].append(cmd)
            if cmd.end:
                out.append([])
        if not out[-1]:
            out.pop()
        return out


def apply_real(ps: t.Any, pool: t.Any, op: t.List, memo: t.Dict) -> None:
    from pypsrp.complex_objects import Command, PipelineResultTypes

    k = op[0]
    if k == "cmdlet":
        ps.add_cmdlet(op[1], use_local_scope=op[2])
    elif k == "script":
        ps.add_script(op[1], use_local_scope=op[2])
    elif k == "command":
        kw = {"merge_" + s: PipelineResultTypes(value=TO[to]) for s, to in op[4]}
        ps.add_command(Command(op[1], protocol_version=pool.protocol_version, is_script=op[3], use_local_scope=op[2], **kw))
    elif k == "arg":
        ps.add_argument(mk(op[1], pool, memo))
    elif k == "param":
        ps.add_parameter(op[1], None if op[2] is None else mk(op[2], pool, memo)) if op[2] is not None else ps.add_parameter(op[1])
    elif k == "params":
        ps.add_parameters({n: mk(v, pool, memo) for n, v in op[1]})
    elif k == "merge":
        getattr(ps, "merge_" + op[1])(op[2])
    elif k == "merge_all":
        ps.merge_all(op[1])
    elif k == "merge_previous":
        ps.merge_previous(op[1])
    elif k == "merge_reset":
        ps.merge_reset()
    elif k == "stmt":
        ps.add_statement()
    elif k == "clear":
        ps.clear_commands()


def mk(spec: t.Dict, pool: t.Any, memo: t.Dict) -> t.Any:
    if spec["k"] == "pre":  # already serialized by the caller
        return pool.serialize(values.build(spec["v"], memo))
    return values.build(spec, memo)


def plain(spec: t.Dict) -> t.Dict:
    return spec["v"] if spec["k"] == "pre" else spec


# ---- comparison with what the server decoded ------------------------------------------------------


class Labels:
    def __init__(self, tree: cx.Tree) -> None:
        self.d: t.Dict[str, cx.Tree] = {}
        self._walk(tree)

    def _walk(self, v: t.Any) -> None:
        if not isinstance(v, list) or not v:
            return
        if v[0] == "Obj":
            d = v[1]
            if d.get("label") is not None:
                self.d[d["label"]] = v
            for x in d.get("items") or []:
                self._walk(x)
            for a, b in d.get("dct") or []:
                self._walk(a)
                self._walk(b)
            for sec in ("ms", "props"):
                for _, x in d.get(sec) or []:
                    self._walk(x)

    def at(self, v: cx.Tree) -> cx.Tree:
        return self.d[v[1]] if v[0] == "Ref" else v


def enum_diff(v: cx.Tree, want: int, name: t.Optional[str], what: str) -> t.Optional[str]:
    if v[0] != "Obj" or v[1].get("prim") != ["I32", want]:
        return "%s is %.120r, the caller set %d" % (what, v, want)
    if name is not None and v[1].get("ts") != name:
        return "%s is named %r, the caller set %r" % (what, v[1].get("ts"), name)
    return None


def prop(v: cx.Tree, key: str) -> cx.Tree:
    for k, x in v[1].get("ms") or []:
        if k == key:
            return x
    return ["absent"]


def cmd_diff(m: MCmd, v: cx.Tree, proto: str, labels: t.Dict, memo: t.Dict, what: str) -> t.Optional[str]:
    fields = ["Cmd", "IsScript", "UseLocalScope", "MergeMyResult", "MergeToResult", "MergePreviousResults", "Args"]
    fields += [FIELD[s] for s in STREAMS if (s != "error" and supported(s, proto)) or (s == "error" and ver(proto) >= (2, 2))]
    have = sorted(k for k, _ in v[1].get("ms") or [])
    if have != sorted(fields):
        return "%s has fields %r, protocol %s needs %r" % (what, have, proto, sorted(fields))
    if prop(v, "Cmd") != ["S", m.text]:
        return "%s text %.200r, the caller gave %.200r" % (what, prop(v, "Cmd"), m.text)
    if prop(v, "IsScript") != ["B", m.script]:
        return "%s IsScript %r" % (what, prop(v, "IsScript"))
    if prop(v, "UseLocalScope") != (["Nil"] if m.scope is None else ["B", m.scope]):
        return "%s UseLocalScope %r, the caller gave %r" % (what, prop(v, "UseLocalScope"), m.scope)
    for f, want in (("MergeMyResult", m.my), ("MergeToResult", m.to)):
        d = enum_diff(prop(v, f), want, TONAME[want], what + " " + f)
        if d:
            return d
    d = enum_diff(prop(v, "MergePreviousResults"), m.prev, "Output, Error" if m.prev else "None", what + " MergePreviousResults")
    if d:
        return d
    for s in STREAMS:
        if FIELD[s] in fields:
            d = enum_diff(prop(v, FIELD[s]), m.merge[s], TONAME[m.merge[s]], what + " " + FIELD[s])
            if d:
                return d
    args = prop(v, "Args")
    items = args[1].get("items") if args[0] == "Obj" else None
    if items is None or len(items) != len(m.args):
        return "%s has %s arguments, the caller added %d" % (what, None if items is None else len(items), len(m.args))
    for i, ((name, spec), a) in enumerate(zip(m.args, items)):
        n = prop(a, "N")
        if n != (["Nil"] if name is None else ["S", name]):
            return "%s argument %d is named %r, the caller gave %r" % (what, i, n, name)
        try:
            values.cmp_spec(plain(spec), prop(a, "V"), "%s argument %d" % (what, i), labels, memo)
        except values.Mismatch as e:
            return str(e)
    return None


def pipe_diff(m: Model, ps_tree: cx.Tree, memo: t.Dict) -> t.Optional[str]:
    """The PowerShell member of CREATE_PIPELINE against the model."""
    st = m.statements()
    labels: t.Dict = {}
    extra = prop(ps_tree, "ExtraCmds")
    if len(st) > 1:
        items = extra[1].get("items") if extra[0] == "Obj" else None
        if items is None or len(items) != len(st):
            return "%s statements, the caller built %d" % (None if items is None else len(items), len(st))
        for i, (want, x) in enumerate(zip(st, items)):
            d = cmds_diff(want, prop(x, "Cmds"), m.proto, labels, memo, "statement %d" % i)
            if d:
                return d
    elif extra not in (["Nil"], ["absent"]) and not (extra[0] == "Obj" and extra[1].get("items") == []):
        return "a single statement was sent with extra statements %.200r" % (extra,)
    return cmds_diff(st[0], prop(ps_tree, "Cmds"), m.proto, labels, memo, "first statement")


def cmds_diff(want: t.List[MCmd], v: cx.Tree, proto: str, labels: t.Dict, memo: t.Dict, what: str) -> t.Optional[str]:
    items = v[1].get("items") if v[0] == "Obj" else None
    if items is None or len(items) != len(want):
        return "%s has %s commands, the caller built %d" % (what, None if items is None else len(items), len(want))
    for i, (m, x) in enumerate(zip(want, items)):
        d = cmd_diff(m, x, proto, labels, memo, "%s command %d" % (what, i))
        if d:
            return d
    return None


def memo_of(ops: t.List) -> t.Dict:
    memo: t.Dict = {}
    values._ids(ops, memo)
    return memo


# ---- generation -----------------------------------------------------------------------------------


def gen_spec(rng: random.Random, depth: int, big: int, labels: t.List[str]) -> t.Dict:
    if rng.random() < 0.05:
        return {"k": "pre", "v": {"k": "str", "v": values.text(rng)}}
    return values.spec(rng, depth, big, labels=labels)


def gen_build(rng: random.Random, big: int = 0, ncmd: int = 4) -> t.List:
    ops: t.List = []
    labels: t.List[str] = []
    for _ in range(rng.randint(1, ncmd)):
        k = rng.choice(["cmdlet", "cmdlet", "script", "command"])
        scope = rng.choice([None, True, False])
        text = rng.choice(["Get-Item", "", values.text(rng, big), values.text(rng)])
        if k == "command":
            ops.append([k, text, scope, rng.random() < 0.5, [[s, rng.choice(["none", "output", "null"])] for s in rng.sample(STREAMS, rng.randint(0, 2))]])
        else:
            ops.append([k, text, scope])
        for _ in range(rng.randint(0, 4)):
            r = rng.random()
            if r < 0.3:
                ops.append(["arg", gen_spec(rng, 2, big, labels)])
            elif r < 0.5:
                ops.append(["param", values.text(rng), gen_spec(rng, 2, big, labels) if rng.random() < 0.7 else None])
            elif r < 0.6:
                ops.append(["params", [[n, gen_spec(rng, 1, 0, labels)] for n in rng.sample(["a", "b", "_x", "C c"], rng.randint(0, 3))]])
            elif r < 0.75:
                ops.append(["merge", rng.choice(STREAMS), rng.choice(["none", "output", "null", "nope"])])
            elif r < 0.85:
                ops.append(["merge_all", rng.choice(["none", "output", "null"])])
            elif r < 0.93:
                ops.append(["merge_previous", rng.random() < 0.5])
            else:
                ops.append(["merge_reset"])
        if rng.random() < 0.35:
            ops.append(["stmt"])
    return ops


def gen_input(rng: random.Random, big: int = 0) -> t.Optional[t.List]:
    """[form, specs]"""
    labels: t.List[str] = []
    r = rng.random()
    if r < 0.3:
        return None

    def one() -> t.Dict:
        return gen_spec(rng, 2, big if rng.random() < 0.5 else 0, labels)

    if r < 0.4:
        s = one()
        while s["k"] in ("list", "none", "again"):
            s = one()
        return ["one", [s]]
    if r < 0.5:
        return ["list", [one() for _ in range(rng.randint(0, 4))]]
    if r < 0.8:
        out = []
        for _ in range(rng.randint(0, 6)):
            s = one()
            out.append(s if s["k"] != "list" else {"k": "int", "v": 0})
        return ["gen", out]
    return ["lists", [[one() for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 4))]]


def input_specs(inp: t.Optional[t.List]) -> t.List[t.Dict]:
    if inp is None:
        return []
    if inp[0] == "lists":
        return [x for y in inp[1] for x in y]
    return list(inp[1])


def mk_input(inp: t.Optional[t.List], pool: t.Any) -> t.Any:
    memo: t.Dict = {}
    if inp is None:
        return None
    f, s = inp
    if f == "one":
        return mk(s[0], pool, memo)
    if f == "list":
        return [mk(x, pool, memo) for x in s]
    if f == "gen":
        vals = [mk(x, pool, memo) for x in s]
        return (v for v in vals)
    lists = [[mk(x, pool, memo) for x in y] for y in s]
    return (v for v in lists)
