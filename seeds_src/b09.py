ID = "p09-stopped-is-error"
PROPERTY = "P09"
NEEDS = "a pipeline that ends as stopped with an error record attached to its final state"
BREAKS = "the error flag is set although the run was stopped and did not fail"
EDITS = [("powershell.py", '''            self.streams.error.append(msg_state.error_record)

        if self.state == PSInvocationState.FAILED:
            self.had_errors = True
''', '''            self.streams.error.append(msg_state.error_record)
            self.had_errors = True

        elif self.state == PSInvocationState.FAILED:
            self.had_errors = True
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"plans": [[["end", "Stopped", wire.error_record("stopped")]]]})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    ps = PowerShell(pool)
    ps.add_cmdlet("x")
    r = run.call(ps.invoke)
    if run.must(r, "invoke", "invoke"):
        run.check(ps.state == 3 and not ps.had_errors, "flag", "state %s had_errors %s" % (ps.state, ps.had_errors))
'''
