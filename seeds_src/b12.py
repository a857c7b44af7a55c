ID = "p12-zero-is-no-answer"
PROPERTY = "P12"
NEEDS = "asking for the available runspaces when the server answers that none is"
BREAKS = "the answer 0 is taken for no answer: the call keeps polling for ever"
EDITS = [("powershell.py", '''        while avail_runspaces is None:
''', '''        while not avail_runspaces:
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import RunspacePool
    h = run.host({"pool": {"avail": [{"count": 3}, {"count": 0}]}})
    w = run.wsman()
    pool = RunspacePool(w, min_runspaces=1, max_runspaces=9)
    pool.open()
    for n in (3, 0):
        r = run.call(pool.get_available_runspaces)
        run.check(r.ok and r.value == n, "call", "available runspaces: %s, the server says %d" % (r, n))
'''
