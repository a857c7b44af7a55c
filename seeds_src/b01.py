ID = "p01-interleaved-defragment"
PROPERTY = "P01"
NEEDS = "two objects whose fragments overlap in one stream: a fragment starting a second object arrives before the first object's last fragment"
BREAKS = "Fragmenter.defragment forgets every partly received object when a new object starts, so output whose fragments are interleaved is lost"
EDITS = [("powershell.py", '''                incoming_buffer = {"data": b"", "id": 0}
                self.incoming_buffer[frag.object_id] = incoming_buffer
''', '''                incoming_buffer = {"data": b"", "id": 0}
                # an object is being started, what is left over can only be stale
                self.incoming_buffer = {frag.object_id: incoming_buffer}
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    plan = [["out", S("%d" % i + "x" * 700)] for i in range(8)] + [["end", "Completed"]]
    h = run.host({"pool": {"frag": 200, "interleave": True}, "coalesce": 0.2, "resp_units": [1, 40], "plans": [plan]})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    ps = PowerShell(pool)
    ps.add_script("run")
    ps.invoke()
    c.check_pipe(run, c.pipe_of(h, ps), ps, "data")
    run.check(h.coverage.get("interleaved_fragments"), "demo", "nothing was interleaved")
'''
