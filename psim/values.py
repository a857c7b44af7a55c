"""Seeded value generation and comparison between model trees and Python values."""
from __future__ import annotations

import queue
import random
import typing as t
import uuid

from . import clixml as cx

NASTY = [
    "",
    " ",
    "a",
    "_",
    "_x",
    "_X",
    "__x000A_",
    "_x000A_",
    "_X000A_",
    "_x005F_",
    "_x005F_x0041_",
    "_xD83D__xDE00_",
    "_x0_",
    "_x00G1_",
    "x_x_x",
    "\n",
    "\r\n",
    "\t tab",
    "\x00",
    "\x01\x1f",
    "\x7f\x80\x85\x9f",
    "<a>&\"'</a>",
    "]]>",
    "<![CDATA[x]]>",
    "&amp;",
    "\U0001f600",
    "a\U0001f600b\U0010ffffc",
    "\u4e00\u5f00\u7800\u3000\u4100\u3000",
    "\u0100\u5f00\u7800\u3000\u3000\u3000\u4100\u5f00",
    "\u00e9\u00ff\u0100\ufffd\u2028\u2029\ufeff",
    "\u200b\u202e",
    "  lead and trail  ",
    "nul\x00mid",
    "'; Remove-Item $x",
    "-----",
    "Encrypted Boundary--\r\n",
]


def text(rng: random.Random, big: int = 0) -> str:
    r = rng.random()
    if big and r < 0.25:
        return mk_big(rng, rng.randint(1, big))
    if r < 0.5:
        return rng.choice(NASTY)
    if r < 0.6:
        return rng.choice(NASTY) + rng.choice(NASTY) + rng.choice(NASTY)
    if r < 0.72:  # pieces of escapes next to characters that are escaped themselves
        pieces = ["_", "__", "_x", "_X", "x", "0041", "00e9", "D83D", "dE00", "005F", "004", "_x0041", "_x005F", "_x0041_", "\n", "\x05", "\x9f", "\U0001f600", "a", " "]
        return "".join(rng.choice(pieces) for _ in range(rng.randint(2, 7)))
    n = rng.randint(0, 12)
    pool = [
        lambda: chr(rng.randint(0x20, 0x7E)),
        lambda: chr(rng.randint(0, 0x1F)),
        lambda: chr(rng.randint(0x7F, 0xFF)),
        lambda: chr(rng.randint(0x100, 0xD7FF)),
        lambda: chr(rng.randint(0xE000, 0xFFFD)),
        lambda: chr(rng.randint(0x10000, 0x10FFFF)),
        lambda: rng.choice("_xX0059AFaf"),
    ]
    k = rng.choice([pool, pool[:1], pool[5:], pool[6:]])
    return "".join(rng.choice(k)() for _ in range(n))


def mk_big(rng: random.Random, n: int) -> str:
    unit = rng.choice(["abcdefghij", "xy_x", "\u00e9", "0123456789\n", "\U0001f600z"])
    tag = "%06d" % rng.randrange(10**6)
    s = tag + (unit * (n // len(unit) + 1))[: max(0, n - 6)] + tag
    return s


# ---- primitive trees
def prim_tree(rng: random.Random, big: int = 0) -> cx.Tree:
    k = rng.randrange(16)
    if k < 4:
        return ["S", text(rng, big)]
    if k == 4:
        return ["B", rng.random() < 0.5]
    if k == 5:
        return ["I32", rng.choice([0, 1, -1, 2**31 - 1, -(2**31), rng.randint(-1000, 1000)])]
    if k == 6:
        return ["I64", rng.choice([0, 2**63 - 1, -(2**63), rng.randint(-(10**12), 10**12)])]
    if k == 7:
        return ["Db", repr(rng.choice([0.0, 1.5, -2.25, 1e300, 1e-300, 3.141592653589793, rng.uniform(-1e6, 1e6)]))]
    if k == 8:
        return ["BA", rng.randbytes(rng.choice([0, 1, 2, 3, 16, 57])).hex()]
    if k == 9:
        return ["G", str(uuid.UUID(int=rng.getrandbits(128)))]
    if k == 10:
        return ["Nil"]
    if k == 11:
        return ["C", rng.choice([65, 95, 0x1F, 0xE9, 0x4E00, 0xFFFD])]
    if k == 12:
        return rng.choice([["By", rng.randint(0, 255)], ["SB", rng.randint(-128, 127)], ["U16", rng.randint(0, 65535)], ["I16", rng.randint(-32768, 32767)], ["U32", 2**32 - 1], ["U64", 2**64 - 1]])
    if k == 13:
        return rng.choice([["DT", "2026-01-02T03:04:05.1234567Z"], ["TS", "PT9.0269026S"], ["D", "12.34"], ["Version", "6.2.1.3"], ["Sg", "0.5"]])
    if k == 14:
        return [rng.choice(["URI", "XD", "SBK"]), text(rng)]
    return ["S", text(rng)]


LIST_TNS = [
    ["System.Collections.ArrayList", "System.Object"],
    ["System.Object[]", "System.Array", "System.Object"],
    ["System.Collections.Generic.List`1[[System.Object, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]", "System.Object"],
]
STRLIST_TN = ["System.String[]", "System.Array", "System.Object"]
INTLIST_TN = ["System.Int32[]", "System.Array", "System.Object"]
DICT_TNS = [
    ["System.Collections.Hashtable", "System.Object"],
    ["System.Collections.Generic.Dictionary`2[[System.String, mscorlib, Version=4.0.0.0],[System.Object, mscorlib, Version=4.0.0.0]]", "System.Object"],
]
KEY = ["k", "a b", "K_x", "\u00e9", "1", "long" * 5]


def tree(rng: random.Random, depth: int = 2, big: int = 0, labels: t.Optional[t.List[str]] = None) -> cx.Tree:
    """A value the server may emit (compared with `match`)."""
    if labels is None:
        labels = []
    r = rng.random()
    if depth <= 0 or r < 0.45:
        if labels and rng.random() < 0.15:
            return ["Ref", rng.choice(labels)]
        return prim_tree(rng, big)
    k = rng.randrange(8)
    n = rng.randint(0, 4)
    lab = None
    if rng.random() < 0.3:
        lab = "L%d" % rng.getrandbits(32)
    inner = list(labels)

    def sub() -> cx.Tree:
        v = tree(rng, depth - 1, big, inner)
        if v[0] == "Obj" and v[1].get("label"):
            inner.append(v[1]["label"])
        return v

    if k <= 1:
        v = cx.lst([sub() for _ in range(n)], rng.choice(LIST_TNS))
    elif k == 2:
        if rng.random() < 0.5:
            v = cx.lst([["S", text(rng)] for _ in range(n)], STRLIST_TN)
        else:
            v = cx.lst([["I32", rng.randint(-5, 5)] for _ in range(n)], INTLIST_TN)
    elif k == 3:
        keys = rng.sample(KEY, min(n, len(KEY)))
        v = cx.dct([[["S", x] if rng.random() < 0.8 else ["I32", i], sub()] for i, x in enumerate(keys)], rng.choice(DICT_TNS))
    elif k == 4:
        v = cx.lst([sub() for _ in range(n)], ["System.Collections.Queue", "System.Object"], "QUE")
    elif k == 5:
        v = cx.lst([sub() for _ in range(n)], ["System.Collections.Stack", "System.Object"], "STK")
    else:
        names = rng.sample(["Name", "Id", "Value", "_priv", "A-b", "Zed"], min(n, 6))
        half = rng.randint(0, len(names))
        first = [(x, sub()) for x in names[half:]]  # document order: Props, then MS
        v = cx.obj(
            props=first,
            ms=[(x, sub()) for x in names[:half]],
            tn=rng.choice([None, ["System.Management.Automation.PSCustomObject", "System.Object"], ["Deserialized.My.Type", "System.Object"]]),
            ts=rng.choice([None, text(rng)]),
        )
    if lab is not None:
        v[1]["label"] = lab
        labels.append(lab)
    return v


def _kind(v: cx.Tree) -> str:
    d = v[1]
    if d.get("dct") is not None:
        return "dict"
    if d.get("items") is not None:
        return {"QUE": "queue"}.get(d.get("tag", "LST"), "list")
    return "obj"


def drain(q: queue.Queue) -> t.List:
    """Contents without consuming."""
    return list(q.queue)


class Mismatch(Exception):
    pass


def match(v: cx.Tree, got: t.Any, path: str = "value", seen: t.Optional[t.Dict] = None, secrets: bool = True) -> None:
    """Raise Mismatch unless `got` is the Python rendering of the tree."""
    if seen is None:
        seen = {}
    tag = v[0]

    def bad(exp: t.Any) -> None:
        raise Mismatch("%s: expected %.200r (%s), got %s %.200r" % (path, exp, tag, type(got).__name__, got))

    if tag == "Nil":
        if got is not None:
            bad(None)
    elif tag in ("S", "URI", "XD", "SBK", "DT", "TS", "D", "Version", "SS"):
        if not isinstance(got, str) or got != v[1]:
            bad(v[1])
    elif tag == "C":
        if got != chr(v[1]):
            bad(chr(v[1]))
    elif tag == "B":
        if got is not v[1]:
            bad(v[1])
    elif tag in cx.INT_TAGS:
        if not isinstance(got, int) or isinstance(got, bool) or got != v[1]:
            bad(v[1])
    elif tag in cx.FLOAT_TAGS:
        if not isinstance(got, float) or got != float(v[1]):
            bad(float(v[1]))
    elif tag == "BA":
        if not isinstance(got, bytes) or got.hex() != v[1]:
            bad(v[1])
    elif tag == "G":
        if not isinstance(got, uuid.UUID) or got != uuid.UUID(v[1]):
            bad(v[1])
    elif tag == "Ref":
        if v[1] in seen:
            first, tr = seen[v[1]]
            match(tr, got, path + "(ref)", dict(seen))
        else:
            raise Mismatch("%s: reference to an unseen label" % path)
    elif tag == "Obj":
        d = v[1]
        if d.get("label") is not None:
            seen[d["label"]] = (got, v)
        k = _kind(v)
        if k == "obj" and (d.get("tn") or [""])[0] == "System.Management.Automation.PSCredential":
            if type(got).__name__ != "PSCredential":
                bad("a credential")
            for name, attr in (("UserName", "username"), ("Password", "password")):
                match(cx.get(v, name), getattr(got, attr), "%s.%s" % (path, attr), seen)
            return
        if k in ("list", "queue"):
            if k == "queue":
                if not isinstance(got, queue.Queue):
                    bad("a queue")
                seq = drain(got)
            else:
                if not isinstance(got, list):
                    bad("a list of %d" % len(d["items"]))
                seq = got
            if len(seq) != len(d["items"]):
                raise Mismatch("%s: expected %d elements, got %d" % (path, len(d["items"]), len(seq)))
            for i, (a, b) in enumerate(zip(d["items"], seq)):
                match(a, b, "%s[%d]" % (path, i), seen)
        elif k == "dict":
            if not isinstance(got, dict):
                bad("a dictionary")
            if len(got) != len(d["dct"]):
                raise Mismatch("%s: expected %d keys, got %d" % (path, len(d["dct"]), len(got)))
            for a, b in d["dct"]:
                key = a[1]
                if key not in got:
                    raise Mismatch("%s: key %r missing" % (path, key))
                match(b, got[key], "%s[%r]" % (path, key), seen)
        else:
            for attr in ("types", "to_string", "extended_properties", "adapted_properties"):
                if not hasattr(got, attr):
                    bad("an object")
            if list(got.types) != list(d.get("tn") or []):
                raise Mismatch("%s: types %r != %r" % (path, got.types, d.get("tn")))
            if got.to_string != d.get("ts"):
                raise Mismatch("%s: to_string %r != %r" % (path, got.to_string, d.get("ts")))
            for sec, attr in (("ms", "extended_properties"), ("props", "adapted_properties")):
                want = d.get(sec) or []
                have = getattr(got, attr)
                if sorted(have) != sorted(k2 for k2, _ in want):
                    raise Mismatch("%s: %s keys %r != %r" % (path, attr, sorted(have), [k2 for k2, _ in want]))
            for sec, attr in (("props", "adapted_properties"), ("ms", "extended_properties")):
                for k2, x in d.get(sec) or []:
                    match(x, getattr(got, attr)[k2], "%s.%s" % (path, k2), seen)
    else:
        raise Mismatch("%s: unknown tag %s" % (path, tag))


def diff(v: cx.Tree, got: t.Any) -> t.Optional[str]:
    try:
        match(v, got)
    except Mismatch as e:
        return str(e)
    except RecursionError:
        return "value nests without end"
    return None


# ---------------------------------------------------------------------------------------------------
# Values the client sends: JSON specs -> Python values, and comparison of the tree the server decoded.
# Spec: {"k": kind, ...}


def spec(rng: random.Random, depth: int = 2, big: int = 0, allow: str = "full", labels: t.Optional[t.List[str]] = None) -> t.Dict:
    if labels is None:
        labels = []
    r = rng.random()
    if depth <= 0 or r < 0.5:
        if labels and rng.random() < 0.1:
            return {"k": "again", "id": rng.choice(labels)}
        k = rng.randrange(12)
        if k < 4:
            return {"k": "str", "v": text(rng, big)}
        if k == 4:
            return {"k": "bool", "v": rng.random() < 0.5}
        if k == 5:
            return {"k": "int", "v": rng.choice([0, 1, -1, 2**31 - 1, -(2**31), rng.randint(-99, 99)])}
        if k == 6:
            return {"k": "float", "v": rng.choice([0.5, -2.25, 0.0, 1024.0])}
        if k == 7:
            return {"k": "bytes", "v": rng.randbytes(rng.choice([0, 1, 5, 57, 300])).hex()}
        if k == 8:
            return {"k": "uuid", "v": str(uuid.UUID(int=rng.getrandbits(128)))}
        if k == 9:
            return {"k": "none"}
        if k == 10:
            tag = rng.choice(["I64", "U64", "By", "Db", "U32", "I16", "C", "Version", "URI", "SBK", "DT", "TS"])
            val: t.Any = {"I64": rng.choice([2**63 - 1, -(2**63), 7]), "U64": 2**64 - 1, "By": rng.randint(0, 255), "Db": 3.141592653589793, "U32": 2**32 - 1, "I16": -5, "C": "Z", "Version": "1.2.3", "URI": "http://x/?a=1&b=_x", "SBK": "gci | % { $_ }\n", "DT": "2026-01-02T03:04:05Z", "TS": "PT3S"}[tag]
            if tag in ("DT",):
                tag, val = "TS", "PT3S"
            return {"k": "tagged", "tag": tag, "v": val}
        return {"k": "str", "v": text(rng)}
    k = rng.randrange(7)
    n = rng.randint(0, 4)
    if k <= 2:
        return {"k": "list", "v": [spec(rng, depth - 1, big, allow, labels) for _ in range(n)]}
    if k == 3:
        keys = rng.sample(KEY, min(n, len(KEY)))
        return {"k": "dict", "v": [[{"k": "str", "v": x}, spec(rng, depth - 1, big, allow, labels)] for x in keys]}
    if k == 4:
        return {"k": "queue", "v": [spec(rng, depth - 1, big, allow, labels) for _ in range(n)]}
    names = rng.sample(["Name", "Id", "Value", "_priv", "Zed"], min(n, 5))
    half = rng.randint(0, len(names))
    out: t.Dict = {
        "k": "obj",
        "ext": [[x, spec(rng, depth - 1, big, allow, labels)] for x in names[:half]],
        "adp": [[x, spec(rng, depth - 1, big, allow, labels)] for x in names[half:]],
        "ts": rng.choice([None, text(rng)]),
        "types": rng.choice([[], ["System.Management.Automation.PSCustomObject", "System.Object"]]),
    }
    if rng.random() < 0.5:
        out["id"] = "I%d" % rng.getrandbits(32)
        labels.append(out["id"])
    return out


def build(s: t.Dict, memo: t.Optional[t.Dict] = None) -> t.Any:
    """Python value for a spec. Shared objects (id/again) are one Python object."""
    from pypsrp.complex_objects import GenericComplexObject
    from pypsrp.serializer import TaggedValue

    memo = {} if memo is None else memo
    k = s["k"]
    if k in ("str", "bool", "int", "float"):
        return s["v"]
    if k == "bytes":
        return bytes.fromhex(s["v"])
    if k == "uuid":
        return uuid.UUID(s["v"])
    if k == "none":
        return None
    if k == "tagged":
        return TaggedValue(s["tag"], s["v"])
    if k == "secret":
        return TaggedValue("SS", s["v"])
    if k == "cobj":
        from pypsrp import complex_objects

        return getattr(complex_objects, s["cls"])(**s["kw"])
    if k == "list":
        return [build(x, memo) for x in s["v"]]
    if k == "dict":
        return {build(a, memo): build(b, memo) for a, b in s["v"]}
    if k == "queue":
        q: queue.Queue = queue.Queue()
        for x in s["v"]:
            q.put(build(x, memo))
        return q
    if k == "again":
        return memo.get(s["id"])
    if k == "obj":
        o = GenericComplexObject()
        for name, x in s["ext"]:
            o.extended_properties[name] = build(x, memo)
        for name, x in s["adp"]:
            o.adapted_properties[name] = build(x, memo)
        o.to_string = s["ts"]
        o.types = list(s["types"])
        if s.get("id"):
            memo[s["id"]] = o
        return o
    raise ValueError(k)


def cmp_spec(s: t.Dict, v: cx.Tree, path: str = "value", labels: t.Optional[t.Dict] = None, memo: t.Optional[t.Dict] = None) -> None:
    """Does the tree the server decoded equal the value the caller passed?"""
    labels = {} if labels is None else labels
    memo = {} if memo is None else memo

    def bad(exp: t.Any) -> None:
        raise Mismatch("%s: caller passed %.200r, server got %.300r" % (path, exp, v))

    if v[0] == "Ref":
        if v[1] not in labels:
            bad("?")
        v = labels[v[1]]
    elif v[0] == "Obj" and v[1].get("label") is not None:
        labels[v[1]["label"]] = v
    k = s["k"]
    if k == "again":
        if s["id"] not in memo:
            if v != ["Nil"]:
                bad(None)
            return
        return cmp_spec(memo[s["id"]], v, path, labels, memo)
    if k == "str":
        if v != ["S", s["v"]]:
            bad(s["v"])
    elif k == "bool":
        if v != ["B", s["v"]] or v[1] is not s["v"]:
            bad(s["v"])
    elif k == "int":
        if v[0] not in ("I32", "I64") or v[1] != s["v"]:
            bad(s["v"])
    elif k == "float":
        if v[0] not in ("Sg", "Db") or float(v[1]) != s["v"]:
            bad(s["v"])
    elif k == "bytes":
        if v != ["BA", s["v"]]:
            bad(s["v"])
    elif k == "uuid":
        if v[0] != "G" or uuid.UUID(v[1]) != uuid.UUID(s["v"]):
            bad(s["v"])
    elif k == "none":
        if v != ["Nil"]:
            bad(None)
    elif k == "secret":
        if v != ["SS", s["v"]]:
            bad(s["v"])
    elif k == "tagged":
        tag = s["tag"]
        if v[0] != tag:
            bad(s)
        got = v[1]
        want = s["v"]
        if tag == "C":
            want = ord(want)
        if tag == "Db":
            got = float(got)
        if got != want:
            bad(want)
    elif k in ("list", "queue"):
        if v[0] != "Obj" or v[1].get("items") is None or (v[1].get("tag", "LST") == "QUE") != (k == "queue"):
            bad(k)
        if len(v[1]["items"]) != len(s["v"]):
            bad(s["v"])
        for i, (a, b) in enumerate(zip(s["v"], v[1]["items"])):
            cmp_spec(a, b, "%s[%d]" % (path, i), labels, memo)
    elif k == "dict":
        if v[0] != "Obj" or v[1].get("dct") is None or len(v[1]["dct"]) != len(s["v"]):
            bad(s["v"])
        for (a, b), (x, y) in zip(s["v"], v[1]["dct"]):
            cmp_spec(a, x, path + ".key", labels, memo)
            cmp_spec(b, y, "%s[%r]" % (path, a["v"]), labels, memo)
    elif k == "obj":
        if v[0] != "Obj":
            bad(s)
        d = v[1]
        for want, sec in ((s["ext"], "ms"), (s["adp"], "props")):
            have = {a: b for a, b in d.get(sec) or []}
            if sorted(have) != sorted(a for a, _ in want):
                raise Mismatch("%s: properties %r, caller passed %r" % (path, sorted(have), sorted(a for a, _ in want)))
        if (d.get("ts") or None) != (s["ts"] or None) and not (s["ts"] == "" and d.get("ts") == ""):
            raise Mismatch("%s: ToString %r, caller passed %r" % (path, d.get("ts"), s["ts"]))
        if list(d.get("tn") or []) != list(s["types"]):
            raise Mismatch("%s: types %r, caller passed %r" % (path, d.get("tn"), s["types"]))
        # document order: MS first (sorted), then Props (sorted)
        for want, sec in ((s["ext"], "ms"), (s["adp"], "props")):
            have = {a: b for a, b in d.get(sec) or []}
            wd = dict((a, b) for a, b in want)
            for a, b in d.get(sec) or []:
                cmp_spec(wd[a], b, "%s.%s" % (path, a), labels, memo)
    else:
        raise ValueError(k)


def _ids(s: t.Any, memo: t.Dict) -> None:
    if isinstance(s, dict):
        if s.get("k") == "obj" and s.get("id"):
            memo[s["id"]] = s
        for x in s.values():
            _ids(x, memo)
    elif isinstance(s, list):
        for x in s:
            _ids(x, memo)


def spec_diff(s: t.Dict, v: cx.Tree) -> t.Optional[str]:
    memo: t.Dict = {}
    _ids(s, memo)
    try:
        cmp_spec(s, v, memo=memo)
    except Mismatch as e:
        return str(e)
    return None


def same(a: t.Any, b: t.Any, path: str = "value") -> t.Optional[str]:
    """Compare two Python values (sent and echoed back)."""
    from pypsrp.complex_objects import ComplexObject, GenericComplexObject
    from pypsrp.serializer import TaggedValue

    if isinstance(a, TaggedValue):
        a = a.value
    if isinstance(b, TaggedValue):
        b = b.value
    if isinstance(a, queue.Queue):
        if not isinstance(b, queue.Queue):
            return "%s: queue came back as %s" % (path, type(b).__name__)
        return same(drain(a), drain(b), path + ".queue")
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return "%s: list of %d came back as %.200r" % (path, len(a), b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return "%s: dict %.100r came back as %.200r" % (path, a, b)
        for k in a:
            r = same(a[k], b[k], "%s[%r]" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, GenericComplexObject):
        if not isinstance(b, GenericComplexObject):
            return "%s: object came back as %.200r" % (path, b)
        if (a.to_string or None) != (b.to_string or None) or list(a.types) != list(b.types):
            return "%s: object header differs: %r/%r %r/%r" % (path, a.to_string, b.to_string, a.types, b.types)
        for attr in ("extended_properties", "adapted_properties"):
            x, y = getattr(a, attr), getattr(b, attr)
            if sorted(x) != sorted(y):
                return "%s: %s %r came back as %r" % (path, attr, sorted(x), sorted(y))
            for k in x:
                r = same(x[k], y[k], "%s.%s" % (path, k))
                if r:
                    return r
        return None
    if isinstance(a, ComplexObject):
        x = {k: v for k, v in vars(a).items() if not k.startswith("_")}
        y = {k: getattr(b, k, "missing") for k in x}
        if type(a) is not type(b) or x != y:
            return "%s: %s %r came back as %s %r" % (path, type(a).__name__, x, type(b).__name__, y)
        return None
    if type(a) is not type(b) or a != b:
        return "%s: %s %.200r came back as %s %.200r" % (path, type(a).__name__, a, type(b).__name__, b)
    return None
