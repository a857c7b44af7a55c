ID = "p21-probe-authentication-unbounded"
PROPERTY = "P21"
NEEDS = "message encryption, an authentication that has to be done again, and a server that does not answer it, for a call with its own short time limit"
BREAKS = "the authentication made for a call with a time limit of its own waits for the connection's limits instead"
EDITS = [("wsman.py", '''                    self._send_request(prep_request, timeout=timeout)
''', '''                    self._send_request(prep_request)
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"auth": "ntlm", "encrypt": True, "plans": [[["sleep", 100.0], ["end", "Completed"]]]})
    w = run.wsman(operation_timeout=20, read_timeout=30)
    pool = RunspacePool(w)
    pool.open()
    ps = PowerShell(pool)
    ps.add_script("#")
    ps.begin_invoke()
    h.arm({"on": "*", "n": 1, "times": 10**9, "kind": "drop_req"})
    for x in run.net.conns:
        x.server_close()
    run.settle()
    h.cfg["connect"] = [["timeout"]] * 100
    h.connect_plan = [["timeout"]] * 100
    r = run.call(ps.poll_invoke, timeout=2)
    print(r, r.dur)
    run.check(r.dur < 260, "slow", "a poll of 2 s took %.0f s" % r.dur)
'''
