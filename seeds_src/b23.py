ID = "p23-duplicate-fragment-appended"
PROPERTY = "P23"
NEEDS = "a middle fragment of a message that arrives twice"
BREAKS = "the content of a fragment that arrives twice is there twice, without an error"
EDITS = [("powershell.py", '''            if frag.fragment_id != incoming_buffer["id"]:
''', '''            if frag.fragment_id > incoming_buffer["id"]:
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import Fragmenter
    from pypsrp.exceptions import FragmentError
    from pypsrp.serializer import Serializer
    f = Fragmenter(100, Serializer())
    body = wire.pack_message("PIPELINE_OUTPUT", "0" * 8 + "-0000-0000-0000-" + "0" * 12, None, b"<S>" + b"a" * 400 + b"</S>", False)
    from pypsrp.powershell import Fragment
    parts = [body[i:i + 100] for i in range(0, len(body), 100)]
    seq = [(i, p) for i, p in enumerate(parts)]
    seq.insert(2, seq[1])
    data = b"".join(Fragment(1, i, p, i == 0, i == len(parts) - 1).pack() for i, p in seq)
    r = run.call(f.defragment, data)
    run.check(not r.ok and isinstance(r.exc, FragmentError), "silent", "%s %s" % (r, r.ok and [m.data for m in r.value]))
'''
