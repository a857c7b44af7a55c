ID = "p18-length-only-at-least"
PROPERTY = "P18"
NEEDS = "an encrypted answer whose announced length was changed to something smaller"
BREAKS = "a message longer than announced is accepted"
EDITS = [("encryption.py", '''            if actual_length != expected_length:
''', '''            if actual_length < expected_length:
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import RunspacePool
    h = run.host({"auth": "ntlm", "encrypt": True})
    pool = RunspacePool(run.wsman())
    h.arm({"on": "Create", "kind": "tamper", "how": "length", "delta": -16})
    r = run.call(pool.open)
    run.check(not r.ok, "accepted", "open %s" % r)
'''
