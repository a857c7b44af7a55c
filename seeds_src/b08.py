ID = "p08-fault-during-short-poll"
PROPERTY = "P08"
NEEDS = "a fault other than the operation timeout answering a pipeline poll that was given its own timeout"
BREAKS = "the fault is swallowed as if the poll had just found no output"
EDITS = [("powershell.py", '''            if err.code == 2150858793:
                responses = []
''', '''            if err.code == 2150858793 or timeout is not None:
                responses = []
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"plans": [[["sleep", 30.0], ["end", "Completed"]]]})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    ps = PowerShell(pool)
    ps.add_cmdlet("x")
    ps.begin_invoke()
    h.arm({"on": "Receive", "kind": "fault", "args": {"code": 2150858843, "reason": "gone"}})
    r = run.call(ps.poll_invoke, timeout=2)
    run.check(not r.ok and getattr(r.exc, "code", None) == 2150858843, "fault", "the poll %s" % r)
'''
