"""Server-side PSRP framing and message construction (independent of pypsrp)."""
from __future__ import annotations

import struct
import typing as t
import uuid

from . import clixml as cx
from .clixml import B, I32, I64, NIL, S, Tree, dct, enum, obj

MT = dict(
    SESSION_CAPABILITY=0x00010002,
    INIT_RUNSPACEPOOL=0x00010004,
    PUBLIC_KEY=0x00010005,
    ENCRYPTED_SESSION_KEY=0x00010006,
    PUBLIC_KEY_REQUEST=0x00010007,
    CONNECT_RUNSPACEPOOL=0x00010008,
    RUNSPACEPOOL_INIT_DATA=0x0002100B,
    RESET_RUNSPACE_STATE=0x0002100C,
    SET_MAX_RUNSPACES=0x00021002,
    SET_MIN_RUNSPACES=0x00021003,
    RUNSPACE_AVAILABILITY=0x00021004,
    RUNSPACEPOOL_STATE=0x00021005,
    CREATE_PIPELINE=0x00021006,
    GET_AVAILABLE_RUNSPACES=0x00021007,
    USER_EVENT=0x00021008,
    APPLICATION_PRIVATE_DATA=0x00021009,
    GET_COMMAND_METADATA=0x0002100A,
    RUNSPACEPOOL_HOST_CALL=0x00021100,
    RUNSPACEPOOL_HOST_RESPONSE=0x00021101,
    PIPELINE_INPUT=0x00041002,
    END_OF_PIPELINE_INPUT=0x00041003,
    PIPELINE_OUTPUT=0x00041004,
    ERROR_RECORD=0x00041005,
    PIPELINE_STATE=0x00041006,
    DEBUG_RECORD=0x00041007,
    VERBOSE_RECORD=0x00041008,
    WARNING_RECORD=0x00041009,
    PROGRESS_RECORD=0x00041010,
    INFORMATION_RECORD=0x00041011,
    PIPELINE_HOST_CALL=0x00041100,
    PIPELINE_HOST_RESPONSE=0x00041101,
)
NAME = {v: k for k, v in MT.items()}

PS = dict(NotStarted=0, Running=1, Stopping=2, Stopped=3, Completed=4, Failed=5, Disconnected=6)
RP = dict(BeforeOpen=0, Opening=1, Opened=2, Closed=3, Closing=4, Broken=5, NegotiationSent=6, NegotiationSucceeded=7, Connecting=8, Disconnected=9)


class WireError(Exception):
    """The client sent something a conforming server cannot accept."""


def pack_message(mtype: str, rpid: str, pid: t.Optional[str], payload: bytes, bom: bool = False) -> bytes:
    zero = uuid.UUID(int=0)
    return (
        struct.pack("<II", 1, MT[mtype])
        + (uuid.UUID(rpid) if rpid else zero).bytes_le
        + (uuid.UUID(pid) if pid else zero).bytes_le
        + (b"\xef\xbb\xbf" if bom else b"")
        + payload
    )


def unpack_message(data: bytes) -> t.Tuple[str, str, str, bytes]:
    if len(data) < 40:
        raise WireError("message shorter than its header")
    dest, mt = struct.unpack("<II", data[:8])
    if dest != 2:
        raise WireError("message not addressed to the server: %d" % dest)
    if mt not in NAME:
        raise WireError("unknown message type %x" % mt)
    rpid = str(uuid.UUID(bytes_le=data[8:24])).upper()
    pid = str(uuid.UUID(bytes_le=data[24:40])).upper()
    body = data[40:]
    if body[:3] == b"\xef\xbb\xbf":
        body = body[3:]
    return NAME[mt], rpid, pid, body


def frag(object_id: int, fid: int, start: bool, end: bool, data: bytes) -> bytes:
    return struct.pack(">QQBI", object_id, fid, (1 if start else 0) | (2 if end else 0), len(data)) + data


def split_message(object_id: int, msg: bytes, sizes: t.Callable[[], int]) -> t.List[bytes]:
    parts = []
    pos = 0
    while pos < len(msg) or not parts:
        n = max(1, sizes())
        parts.append(msg[pos : pos + n])
        pos += n
    return [frag(object_id, i, i == 0, i == len(parts) - 1, p) for i, p in enumerate(parts)]


class Reassembler:
    """Strict reassembly of client fragments; one per shell (object ids are unique per pool)."""

    def __init__(self) -> None:
        self.open: t.Dict[int, t.Tuple[int, bytes]] = {}
        self.done: t.Set[int] = set()
        self.frags = 0

    def feed(self, data: bytes) -> t.List[bytes]:
        out = []
        pos = 0
        while pos < len(data):
            if len(data) - pos < 21:
                raise WireError("truncated fragment header")
            oid, fid, flags, ln = struct.unpack(">QQBI", data[pos : pos + 21])
            body = data[pos + 21 : pos + 21 + ln]
            if len(body) != ln:
                raise WireError("truncated fragment data")
            pos += 21 + ln
            self.frags += 1
            start, end = bool(flags & 1), bool(flags & 2)
            if oid in self.done:
                raise WireError("object %d sent again" % oid)
            if start != (fid == 0):
                raise WireError("start flag and fragment id %d disagree" % fid)
            want, buf = self.open.get(oid, (0, b""))
            if fid != want:
                raise WireError("object %d: fragment %d, expected %d" % (oid, fid, want))
            buf += body
            if end:
                self.open.pop(oid, None)
                self.done.add(oid)
                out.append(buf)
            else:
                self.open[oid] = (want + 1, buf)
        return out


# -- payload builders ---------------------------------------------------------------------------


def session_capability(proto: str, ps: str = "2.0", ser: str = "1.1.0.1") -> Tree:
    return obj(ms=[("protocolversion", ["Version", proto]), ("PSVersion", ["Version", ps]), ("SerializationVersion", ["Version", ser])])


def error_record(msg: str, fq: str = "Err", cat: int = 0, extended: bool = False, target: t.Optional[Tree] = None, ts: t.Optional[str] = None, inv: t.Optional[t.Dict] = None) -> Tree:
    ms: t.List[t.Tuple[str, Tree]] = [
        (
            "Exception",
            obj(
                tn=["System.Management.Automation.RuntimeException", "System.Exception", "System.Object"],
                ts="Exception: " + msg,
                props=[("Message", S(msg)), ("HResult", I32(-2146233087))],
            ),
        ),
        ("TargetObject", target or NIL),
        ("FullyQualifiedErrorId", S(fq)),
        ("InvocationInfo", NIL),
        ("ErrorCategory_Category", I32(cat)),
        ("ErrorCategory_Activity", S("act")),
        ("ErrorCategory_Reason", S("Reason")),
        ("ErrorCategory_TargetName", S("tn")),
        ("ErrorCategory_TargetType", S("tt")),
        ("ErrorCategory_Message", S("cat: " + msg)),
        ("SerializeExtendedInfo", B(extended or inv is not None)),
    ]
    if inv:
        ms += invocation(inv)
    return obj(tn=["System.Management.Automation.ErrorRecord", "System.Object"], ts=ts if ts is not None else msg, ms=ms)


def invocation(inv: t.Dict) -> t.List[t.Tuple[str, Tree]]:
    """Extended properties PowerShell adds when invocation info is serialized."""
    return [
        ("InvocationInfo_InvocationName", S(inv["name"])),
        ("InvocationInfo_BoundParameters", dct([[S(k), S(v)] for k, v in inv["bound"]], ["System.Management.Automation.PSBoundParametersDictionary", "System.Object"])),
        ("InvocationInfo_UnboundArguments", cx.lst([S(x) for x in inv["unbound"]])),
        ("InvocationInfo_CommandOrigin", enum("System.Management.Automation.CommandOrigin", "Internal", 1)),
        ("InvocationInfo_ExpectingInput", B(bool(inv["expect"]))),
        ("InvocationInfo_Line", S(inv["line"])),
        ("InvocationInfo_OffsetInLine", I32(inv["offset"])),
        ("InvocationInfo_PositionMessage", S("At line:%d" % inv["num"])),
        ("InvocationInfo_ScriptName", S("")),
        ("InvocationInfo_ScriptLineNumber", I32(inv["num"])),
        ("InvocationInfo_HistoryId", I64(inv["hist"])),
        ("InvocationInfo_PipelineLength", I32(1)),
        ("InvocationInfo_PipelinePosition", I32(1)),
        ("InvocationInfo_PipelineIterationInfo", cx.lst([I32(0), I32(1)], ["System.Int32[]", "System.Array", "System.Object"])),
        ("CommandInfo_CommandType", enum("System.Management.Automation.CommandTypes", "Cmdlet", 8)),
        ("CommandInfo_Definition", S("def " + inv["name"])),
        ("CommandInfo_Name", S(inv["name"])),
        ("CommandInfo_Visibility", enum("System.Management.Automation.SessionStateEntryVisibility", "Public", 0)),
    ]


def informational(kind: str, msg: str, inv: t.Optional[t.Dict] = None) -> Tree:
    tn = {"debug": "DebugRecord", "verbose": "VerboseRecord", "warning": "WarningRecord"}[kind]
    return obj(
        tn=["System.Management.Automation." + tn, "System.Management.Automation.InformationalRecord", "System.Object"],
        ts=msg,
        ms=[("InformationalRecord_Message", S(msg)), ("InformationalRecord_SerializeInvocationInfo", B(inv is not None))] + (invocation(inv) if inv else []),
    )


def progress(activity: str, aid: int, desc: str, pct: int) -> Tree:
    return obj(
        tn=["System.Management.Automation.PSCustomObject", "System.Object"],
        ms=[
            ("Activity", S(activity)),
            ("ActivityId", I32(aid)),
            ("StatusDescription", S(desc)),
            ("CurrentOperation", NIL),
            ("ParentActivityId", I32(-1)),
            ("PercentComplete", I32(pct)),
            ("Type", enum("System.Management.Automation.ProgressRecordType", "Processing", 0)),
            ("SecondsRemaining", I32(-1)),
        ],
    )


def information(data: Tree, source: str, tags: t.List[str]) -> Tree:
    return obj(
        ts=source,
        ms=[
            ("MessageData", data),
            ("Source", S(source)),
            ("TimeGenerated", ["DT", "2026-01-01T00:00:00.0000000Z"]),
            ("Tags", obj(tn=["System.Collections.Generic.List`1[[System.String, mscorlib]]", "System.Object"], items=[S(x) for x in tags])),
            ("User", S("user")),
            ("Computer", S("host")),
            ("ProcessId", ["U32", 4]),
            ("NativeThreadId", ["U32", 5]),
            ("ManagedThreadId", ["U32", 6]),
        ],
    )


def user_event(eid: int, source: str, data: Tree, sender: t.Optional[Tree] = None, args: t.Sequence[Tree] = (), computer: str = "host", rid: str = "8ed0ee06-0a6e-4a5e-9d3d-3b6e0d3e6b11") -> Tree:
    return obj(
        tn=["System.Management.Automation.PSCustomObject", "System.Object"],
        ms=[
            ("PSEventArgs.EventIdentifier", I32(eid)),
            ("PSEventArgs.SourceIdentifier", S(source)),
            ("PSEventArgs.TimeGenerated", ["DT", "2026-01-01T00:00:00.0000000Z"]),
            ("PSEventArgs.Sender", S("sender") if sender is None else sender),
            ("PSEventArgs.SourceArgs", cx.lst(list(args))),
            ("PSEventArgs.MessageData", data),
            ("PSEventArgs.ComputerName", S(computer)),
            ("PSEventArgs.RunspaceId", ["G", rid]),
        ],
    )


def app_private(pairs: t.List) -> Tree:
    return obj(ms=[("ApplicationPrivateData", dct(pairs, ["System.Management.Automation.PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"]))])


def pool_state(state: str, err: t.Optional[Tree] = None) -> Tree:
    ms = [("RunspaceState", I32(RP[state]))]
    if err is not None:
        ms.append(("ExceptionAsErrorRecord", err))
    return obj(ms=ms)


def pipeline_state(state: str, err: t.Optional[Tree] = None) -> Tree:
    ms = [("PipelineState", I32(PS[state]))]
    if err is not None:
        ms.append(("ExceptionAsErrorRecord", err))
    return obj(ms=ms)


def availability(ci: int, val: Tree) -> Tree:
    return obj(ms=[("SetMinMaxRunspacesResponse", val), ("ci", I64(ci))])


def host_call(ci: int, mi: int, name: str, args: t.List[Tree]) -> Tree:
    return obj(
        ms=[
            ("ci", I64(ci)),
            ("mi", enum("System.Management.Automation.Remoting.RemoteHostMethodId", name, mi)),
            ("mp", cx.lst(args)),
        ]
    )


def command_metadata(m: t.Dict) -> Tree:
    """m: name, ns, uri, type, out (list), params: [[name, type, [aliases], switch, dynamic], ...]"""

    def text(x: t.Optional[str]) -> Tree:
        return NIL if x is None else S(x)

    ptype = ["System.Collections.Generic.Dictionary`2[[System.String, mscorlib],[System.Management.Automation.ParameterMetadata, System.Management.Automation]]", "System.Object"]
    params = [
        (
            S(n),
            obj(
                tn=["System.Management.Automation.ParameterMetadata", "System.Object"],
                props=[
                    ("Name", S(n)),
                    ("ParameterType", text(ty)),
                    ("Aliases", cx.lst([S(a) for a in al], ["System.Collections.ObjectModel.Collection`1[[System.String, mscorlib]]", "System.Object"])),
                    ("SwitchParameter", B(sw)),
                    ("IsDynamic", B(dy)),
                ],
            ),
        )
        for n, ty, al, sw, dy in m["params"]
    ]
    return obj(
        tn=["Selected.System.Management.Automation.CmdletInfo", "System.Management.Automation.PSCustomObject", "System.Object"],
        ms=[
            ("Name", S(m["name"])),
            ("Namespace", text(m["ns"])),
            ("HelpUri", text(m["uri"])),
            ("CommandType", enum("System.Management.Automation.CommandTypes", "Cmdlet", m["type"])),
            ("ResolvedCommandName", NIL),
            ("OutputType", cx.lst([S(x) for x in m["out"]], ["System.Collections.ObjectModel.ReadOnlyCollection`1[[System.Management.Automation.PSTypeName]]", "System.Object"])),
            ("Parameters", dct(params, ptype)),
        ],
    )


def command_metadata_count(n: int) -> Tree:
    return obj(
        tn=["Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo", "System.Management.Automation.PSCustomObject", "System.Object"],
        ms=[("Count", I32(n))],
    )
