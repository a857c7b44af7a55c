ID = "p20-ban-is-process-wide"
PROPERTY = "P20"
NEEDS = "one thread that opens a connection while another one is probing with is_alive()"
BREAKS = "while one thread probes its pool no other thread can open a connection"
EDITS = [("_pool_manager.py", '''    _contextvar: t.ClassVar[contextvars.ContextVar] = contextvars.ContextVar("NewConnectionContext")
    _contextvar_token: contextvars.Token
''', '''    _active: t.ClassVar[list] = []
'''), ("_pool_manager.py", '''        try:
            return cls._contextvar.get()
        except LookupError:
            return None
''', '''        return cls._active[-1] if cls._active else None
'''), ("_pool_manager.py", '''        self._contextvar_token = self.__class__._contextvar.set(self)
''', '''        self._active.append(self)
'''), ("_pool_manager.py", '''        self.__class__._contextvar.reset(self._contextvar_token)
        del self._contextvar_token
''', '''        self._active.remove(self)
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import RunspacePool
    h = run.host({"get_delay": 3.0})
    other = run.host({"name": "other"})
    pool = RunspacePool(run.wsman(h))
    pool.open()
    out = {}
    def probe():
        out["alive"] = run.call(pool.is_alive, timeout=10)
    def open_():
        run.sim.block(None, 1.0)
        out["open"] = run.call(RunspacePool(run.wsman(other)).open)
    run.sim.spawn("a", probe)
    run.sim.spawn("b", open_)
    run.sim.run_tasks()
    run.check(out["alive"].ok and out["alive"].value is True, "alive", "%s" % out["alive"])
    run.must(out["open"], "open", "opening another pool meanwhile")
'''
