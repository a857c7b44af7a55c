ID = "p06-limit-overridden"
PROPERTY = "P06"
NEEDS = "a client configured with an envelope size between the default and 500 KiB, and a server of protocol 2.2 or later"
BREAKS = "after the session negotiation the client uses its own 500 KiB instead of the maximum envelope size it was configured with"
EDITS = [("powershell.py", '''"2.2") and self.connection.max_envelope_size == 153600:
''', '''"2.2") and self.connection.max_envelope_size >= 153600:
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"plans": [[["wait_input"], ["end", "Completed"]]], "max_envelope": 200000})
    w = run.wsman(max_envelope_size=200000)
    pool = RunspacePool(w)
    pool.open()
    ps = PowerShell(pool)
    ps.add_script("#").add_argument("x" * 400000)
    r = run.call(ps.invoke, ["y" * 50000])
    run.must(r, "invoke", "invoke with a big argument")
    big = [x["size"] for x in h.requests if x["size"] > 200000]
    run.check(not big, "size", "requests of %r bytes" % big)
'''
