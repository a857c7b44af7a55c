ID = "p02-end-element-data"
PROPERTY = "P02"
NEEDS = "a server that puts the end marker of a stream on the element carrying its last data"
BREAKS = "WinRS.receive skips stream elements marked as the end, so the last output of a process is lost when it travels with the marker"
EDITS = [("shell.py", '''            if s.text is None:
                continue
''', '''            if s.text is None or s.attrib.get("End", "").lower() == "true":
                continue
''')]
DEMO = '''
def demo(run):
    from pypsrp.shell import Process, WinRS
    h = run.host({"procs": [[["out", "stdout", "6f75740a"], ["out", "stderr", "65"], ["end", 3]]], "end_with_data": True, "coalesce": 0.2})
    w = run.wsman()
    with WinRS(w) as sh:
        p = Process(sh, "exe")
        p.invoke()
        run.check((p.stdout, p.stderr, p.rc) == (b"out\\n", b"e", 3), "data", "got %r" % ((p.stdout, p.stderr, p.rc),))
'''
