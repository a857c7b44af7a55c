ID = "p26-event-on-a-pipeline-stream"
PROPERTY = "P26"
NEEDS = "an event of the pool that comes with the answers of a pipeline"
BREAKS = "events that come while a pipeline's stream is being read are dropped"
EDITS = [("powershell.py", '''            MessageType.USER_EVENT: self._process_user_event,
            MessageType.APP''', '''            MessageType.USER_EVENT: self._process_user_event if pipeline is None else None,
            MessageType.APP''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"plans": [[["pool", ["event", 1, "source", S("a"), S("b"), [S("c")], "x", "00000000-0000-0000-0000-000000000001"], "pipe"], ["end", "Completed"]]]})
    pool = RunspacePool(run.wsman())
    pool.open()
    ps = PowerShell(pool)
    ps.add_script("#")
    ps.invoke()
    run.check(len(pool.user_events) == 1, "events", "%d events" % len(pool.user_events))
'''
