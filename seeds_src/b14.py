ID = "p14-long-answer-cut"
PROPERTY = "P14"
NEEDS = "a host method whose answer does not fit into one request"
BREAKS = "only the first part of a long answer is sent and the script on the server waits for the rest for ever"
EDITS = [("powershell.py", '''            for fragment in fragments:
                self.shell.send("pr", fragment)
''', '''            self.shell.send("pr", fragments[0])
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    from pypsrp.host import PSHost, PSHostUserInterface
    class UI(PSHostUserInterface):
        def ReadLine(self, runspace, pipeline):
            return "a" * 40000
    h = run.host({"plans": [[["host", 11, "ReadLine", [], True], ["end", "Completed"]]]})
    w = run.wsman(operation_timeout=5, max_envelope_size=16384)
    pool = RunspacePool(w, host=PSHost(None, None, False, "h", None, UI(), "1.0"))
    pool.open()
    ps = PowerShell(pool)
    ps.add_script("#")
    run.call(ps.begin_invoke)
    for _ in range(4):
        if ps.state == 1:
            run.call(ps.poll_invoke, timeout=5)
    run.check(ps.state == 4, "answer", "the pipeline is in state %s" % ps.state)
'''
