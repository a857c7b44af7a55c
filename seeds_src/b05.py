ID = "p05-input-command-id"
PROPERTY = "P05"
NEEDS = "a server that assigns its own command id to a pipeline (as old servers do) and a pipeline with input"
BREAKS = "input objects are sent to the pipeline's own id and not to the command the server created for it, so they never arrive"
EDITS = [("powershell.py", '''                for fragment in fragments:
                    self.runspace_pool.shell.send("stdin", fragment, command_id=self._command_id)
''', '''                for fragment in fragments:
                    self.runspace_pool.shell.send("stdin", fragment, command_id=self.id)
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"own_cmd_ids": True, "plans": [[["echo_input"], ["end", "Completed"]]]})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    ps = PowerShell(pool)
    ps.add_script("#")
    r = run.call(ps.invoke, (v for v in ["a", "c", "b"]))
    if run.must(r, "input", "invoking with input"):
        run.check(ps.output == ["a", "c", "b"], "input", "echoed %r" % (ps.output,))
'''
