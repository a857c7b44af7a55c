ID = "p07-missing-relates"
PROPERTY = "P07"
NEEDS = "a response without a RelatesTo header"
BREAKS = "a response that does not say which request it answers is accepted"
EDITS = [("wsman.py", '''        if message_id != relates_to:
''', '''        if relates_to and message_id != relates_to:
''')]
DEMO = '''
def demo(run):
    from pypsrp.shell import WinRS
    h = run.host({})
    for how in ("none", "empty"):
        sh = WinRS(run.wsman())
        h.arm({"on": "Create", "kind": "bad_relates", "how": how})
        r = run.call(sh.open)
        run.check(not r.ok, "accepted", "open() accepted an answer with RelatesTo %s" % how)
'''
