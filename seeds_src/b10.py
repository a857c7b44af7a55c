ID = "p10-close-disconnected"
PROPERTY = "P10"
NEEDS = "a pool that is closed while it is disconnected"
BREAKS = "closing a disconnected pool leaves its shell on the server"
EDITS = [("powershell.py", '''        if self.state in [RunspacePoolState.CLOSED, RunspacePoolState.CLOSING, RunspacePoolState.BROKEN]:
            return
''', '''        if self.state not in [
            RunspacePoolState.OPENED,
            RunspacePoolState.OPENING,
            RunspacePoolState.BEFORE_OPEN,
            RunspacePoolState.NEGOTIATION_SENT,
            RunspacePoolState.NEGOTIATION_SUCCEEDED,
        ]:
            return
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import RunspacePool
    h = run.host({})
    w = run.wsman()
    with RunspacePool(w) as pool:
        pool.disconnect()
    run.check(not h.shells, "leak", "shells left: %r" % list(h.shells))
'''
