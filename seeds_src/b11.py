ID = "p11-shell-named-by-the-server"
PROPERTY = "P11"
NEEDS = "a server that gives the shell an id of its own, then disconnect and connect"
BREAKS = "reconnecting addresses the shell by the pool's id instead of the id the server gave it"
EDITS = [("powershell.py", '''        selector_set.add_option("ShellId", self.shell.id or "")

        self.connection.reconnect(''', '''        selector_set.add_option("ShellId", self.id)

        self.connection.reconnect(''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"own_shell_ids": True, "plans": [[["end", "Completed"]]]})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    pool.disconnect()
    r = run.call(pool.connect)
    if run.must(r, "connect", "connecting again"):
        ps = PowerShell(pool)
        ps.add_script("#")
        run.must(run.call(ps.invoke), "invoke", "using the pool")
'''
