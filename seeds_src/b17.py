ID = "p17-ban-outlives-probe"
PROPERTY = "P17"
NEEDS = "a probe that ends in an exception (lost connection or time-out), then further work that needs a new connection"
BREAKS = "the ban on new connections stays in force after a probe that failed"
EDITS = [("_pool_manager.py", '''        self.__class__._contextvar.reset(self._contextvar_token)
        del self._contextvar_token
''', '''        if exc_type is None:
            self.__class__._contextvar.reset(self._contextvar_token)
        del self._contextvar_token
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import RunspacePool
    h = run.host({})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    for x in run.net.conns:
        x.server_close()
    run.settle()
    r = run.call(pool.is_alive, timeout=5)
    run.check(r.ok and r.value is False, "alive", "%s" % r)
    other = RunspacePool(run.wsman())
    run.must(run.call(other.open), "after", "opening another pool after the probe")
'''
