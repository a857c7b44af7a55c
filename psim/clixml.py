"""Independent CLIXML codec on JSON-able value trees (the model's side; shares no code with pypsrp).

Trees: [tag, payload].  Primitive payloads are Python scalars (BA: hex text, floats: repr text).
["Nil"], ["Ref", label], ["Obj", {tn, ts, prim, tag, items, dct, ms, props, label}].
"""
from __future__ import annotations

import base64
import re
import typing as t
import xml.etree.ElementTree as ET

Tree = t.List[t.Any]
INT_TAGS = ("By", "SB", "U16", "I16", "U32", "I32", "U64", "I64")
STR_TAGS = ("S", "URI", "XD", "SBK")
RAW_TAGS = ("DT", "TS", "D", "G", "Version")
FLOAT_TAGS = ("Sg", "Db")
LIST_TAGS = ("LST", "IE", "QUE", "STK")


class CliXmlError(Exception):
    pass


def esc(s: str) -> str:
    """MS-PSRP string escaping followed by XML escaping."""
    out = []
    n = len(s)
    for i, ch in enumerate(s):
        o = ord(ch)
        if ch == "_" and i + 1 < n and s[i + 1] in "xX":
            out.append("_x005F_")
        elif o < 0x20 or 0x7F <= o <= 0x9F or 0xD800 <= o <= 0xDFFF or o in (0xFFFE, 0xFFFF):
            out.append("_x%04X_" % o)
        elif o > 0xFFFF:
            v = o - 0x10000
            out.append("_x%04X__x%04X_" % (0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF)))
        elif ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif ch == '"':
            out.append("&quot;")
        else:
            out.append(ch)
    return "".join(out)


_UNESC = re.compile("_[xX]([0-9A-Fa-f]{4})_")


def unesc(s: t.Optional[str]) -> str:
    if not s:
        return ""
    units = _UNESC.sub(lambda m: chr(int(m.group(1), 16)), s)
    return units.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")


class Encoder:
    """One encoder per PSRP message: RefId and TN numbering start at zero."""

    def __init__(self, encrypt: t.Optional[t.Callable[[str], str]] = None, share_tn: bool = True) -> None:
        self.refs = 0
        self.tns: t.Dict[t.Tuple[str, ...], int] = {}
        self.labels: t.Dict[t.Any, int] = {}
        self.encrypt = encrypt
        self.share_tn = share_tn

    def enc(self, v: Tree, name: t.Optional[str] = None) -> str:
        tag = v[0]
        n = ' N="%s"' % esc(name) if name is not None else ""
        if tag == "Nil":
            return "<Nil%s />" % n
        if tag == "Ref":
            return '<Ref%s RefId="%d" />' % (n, self.labels[v[1]])
        if tag in STR_TAGS:
            return "<%s%s>%s</%s>" % (tag, n, esc(v[1]), tag)
        if tag == "SS":
            if self.encrypt is None:
                raise CliXmlError("secure string without a session key")
            return "<SS%s>%s</SS>" % (n, self.encrypt(v[1]))
        if tag == "B":
            return "<B%s>%s</B>" % (n, "true" if v[1] else "false")
        if tag == "BA":
            return "<BA%s>%s</BA>" % (n, base64.b64encode(bytes.fromhex(v[1])).decode())
        if tag in INT_TAGS or tag == "C":
            return "<%s%s>%d</%s>" % (tag, n, v[1], tag)
        if tag in RAW_TAGS or tag in FLOAT_TAGS:
            return "<%s%s>%s</%s>" % (tag, n, v[1], tag)
        if tag != "Obj":
            raise CliXmlError("cannot encode %r" % (v,))
        d = v[1]
        ref = self.refs
        self.refs += 1
        if d.get("label") is not None:
            self.labels[d["label"]] = ref
        out = ['<Obj%s RefId="%d">' % (n, ref)]
        if d.get("tn"):
            key = tuple(d["tn"])
            if self.share_tn and key in self.tns:
                out.append('<TNRef RefId="%d" />' % self.tns[key])
            else:
                i = len(self.tns)
                self.tns[key] = i
                out.append('<TN RefId="%d">%s</TN>' % (i, "".join("<T>%s</T>" % esc(x) for x in d["tn"])))
        if d.get("ts") is not None:
            out.append("<ToString>%s</ToString>" % esc(d["ts"]))
        if d.get("prim") is not None:
            out.append(self.enc(d["prim"]))
        if d.get("items") is not None:
            lt = d.get("tag", "LST")
            out.append("<%s>%s</%s>" % (lt, "".join([self.enc(x) for x in d["items"]]), lt))
        if d.get("dct") is not None:
            out.append("<DCT>")
            for k, x in d["dct"]:
                out.append("<En>%s%s</En>" % (self.enc(k, "Key"), self.enc(x, "Value")))
            out.append("</DCT>")
        secs = [("props", "Props"), ("ms", "MS")]
        if d.get("ms_first"):
            secs.reverse()
        for sec, el in secs:
            if d.get(sec):
                out.append("<%s>" % el)
                for k, x in d[sec]:
                    out.append(self.enc(x, k))
                out.append("</%s>" % el)
        out.append("</Obj>")
        return "".join(out)


def encode(v: Tree, encrypt: t.Optional[t.Callable[[str], str]] = None, share_tn: bool = True) -> bytes:
    return Encoder(encrypt, share_tn).enc(v).encode("utf-8", "surrogatepass")


class Decoder:
    def __init__(self, decrypt: t.Optional[t.Callable[[str], str]] = None) -> None:
        self.tns: t.Dict[str, t.List[str]] = {}
        self.objs: t.Dict[str, t.Any] = {}
        self.decrypt = decrypt

    def dec(self, el: ET.Element) -> Tree:
        tag = el.tag
        text = el.text or ""
        if tag == "Nil":
            return ["Nil"]
        if tag == "Ref":
            rid = el.attrib["RefId"]
            if rid not in self.objs:
                raise CliXmlError("Ref to unknown object %s" % rid)
            self.objs[rid]["label"] = rid
            return ["Ref", rid]
        if tag in STR_TAGS:
            return [tag, unesc(text)]
        if tag == "SS":
            if self.decrypt is None:
                return ["SSraw", text]
            return ["SS", self.decrypt(text)]
        if tag == "B":
            if text not in ("true", "false"):
                raise CliXmlError("bad boolean %r" % text)
            return ["B", text == "true"]
        if tag == "BA":
            return ["BA", base64.b64decode(text, validate=True).hex()]
        if tag in INT_TAGS or tag == "C":
            return [tag, int(text)]
        if tag in RAW_TAGS or tag in FLOAT_TAGS:
            return [tag, text]
        if tag != "Obj":
            raise CliXmlError("unknown element %r" % tag)
        d: t.Dict[str, t.Any] = {}
        rid = el.attrib["RefId"]
        if rid in self.objs:
            raise CliXmlError("duplicate RefId %s" % rid)
        self.objs[rid] = d
        for c in el:
            if c.tag == "TN":
                names = [x.text or "" for x in c]
                if c.attrib["RefId"] in self.tns:
                    raise CliXmlError("duplicate TN RefId")
                self.tns[c.attrib["RefId"]] = names
                d["tn"] = names
            elif c.tag == "TNRef":
                if c.attrib["RefId"] not in self.tns:
                    raise CliXmlError("TNRef to unknown TN")
                d["tn"] = self.tns[c.attrib["RefId"]]
            elif c.tag == "ToString":
                d["ts"] = unesc(c.text)
            elif c.tag in LIST_TAGS:
                d["tag"] = c.tag
                d["items"] = [self.dec(x) for x in c]
            elif c.tag == "DCT":
                d["dct"] = []
                for en in c:
                    if en.tag != "En" or len(en) != 2:
                        raise CliXmlError("bad dictionary entry")
                    if en[0].attrib.get("N") != "Key" or en[1].attrib.get("N") != "Value":
                        raise CliXmlError("bad dictionary entry names")
                    k = self.dec(en[0])
                    d["dct"].append([k, self.dec(en[1])])
            elif c.tag in ("MS", "Props"):
                if c.tag == "Props" and "ms" in d:
                    d["ms_first"] = True
                d["ms" if c.tag == "MS" else "props"] = [[unesc(x.attrib.get("N")), self.dec(x)] for x in c]
            else:
                d["prim"] = self.dec(c)
        return ["Obj", d]


def decode(data: bytes, decrypt: t.Optional[t.Callable[[str], str]] = None) -> Tree:
    try:
        el = ET.fromstring(data.decode("utf-8"))
    except (ET.ParseError, UnicodeDecodeError) as e:
        raise CliXmlError("not well-formed: %s" % e)
    return Decoder(decrypt).dec(el)


# -- small constructors
def S(x: str) -> Tree:
    return ["S", x]


def I32(x: int) -> Tree:
    return ["I32", x]


def I64(x: int) -> Tree:
    return ["I64", x]


def B(x: bool) -> Tree:
    return ["B", bool(x)]


NIL: Tree = ["Nil"]


def obj(ms: t.Sequence = (), props: t.Sequence = (), tn: t.Optional[t.List[str]] = None, ts: t.Optional[str] = None, **kw: t.Any) -> Tree:
    d: t.Dict[str, t.Any] = dict(kw)
    if tn:
        d["tn"] = list(tn)
    if ts is not None:
        d["ts"] = ts
    if ms:
        d["ms"] = [list(x) for x in ms]
    if props:
        d["props"] = [list(x) for x in props]
    return ["Obj", d]


def lst(items: t.List[Tree], tn: t.Optional[t.List[str]] = None, tag: str = "LST") -> Tree:
    return obj(tn=tn or ["System.Collections.ArrayList", "System.Object"], items=items, tag=tag)


def dct(pairs: t.List, tn: t.Optional[t.List[str]] = None) -> Tree:
    return obj(tn=tn or ["System.Collections.Hashtable", "System.Object"], dct=[list(p) for p in pairs])


def enum(tn: str, name: str, val: int) -> Tree:
    return obj(tn=[tn, "System.Enum", "System.ValueType", "System.Object"], ts=name, prim=I32(val))


def get(v: Tree, key: str) -> Tree:
    """Extended (MS) or adapted (Props) property of an Obj tree."""
    for sec in ("ms", "props"):
        for k, x in v[1].get(sec) or ():
            if k == key:
                return x
    raise CliXmlError("no property %r in %r" % (key, v))


def prim(v: Tree) -> t.Any:
    if v[0] == "Nil":
        return None
    if v[0] == "Obj":
        if "prim" in v[1]:
            return prim(v[1]["prim"])
        raise CliXmlError("not a primitive: %r" % (v,))
    return v[1]
