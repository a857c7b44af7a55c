ID = "p19-first-context-kept"
PROPERTY = "P19"
NEEDS = "message encryption and a server that asks to authenticate again in the same session, as after a lost connection"
BREAKS = "after authenticating again the messages are still encrypted with the context of the first authentication"
EDITS = [("negotiate.py", '''        self.contexts[host] = context
''', '''        self.contexts.setdefault(host, context)
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"auth": "ntlm", "encrypt": True, "plans": [[["end", "Completed"]]] * 3})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    for x in run.net.conns:
        x.server_close()
    run.settle()
    ok = 0
    for _ in range(3):
        ps = PowerShell(pool)
        ps.add_script("#")
        r = run.call(ps.invoke)
        print(r)
        ok += r.ok
    run.check(ok >= 2, "recover", "only %d of 3 pipelines ran after the connection was lost" % ok)
'''
