ID = "p24-exit-code-made-up"
PROPERTY = "P24"
NEEDS = "a command that ends without the server reporting an exit code"
BREAKS = "a command for which no exit code was reported looks as if it had succeeded"
EDITS = [("client.py", '''        rc = process.rc if process.rc is not None else -1
''', '''        rc = process.rc or 0
''')]
DEMO = '''
def demo(run):
    h = run.host({"procs": [[["out", "stdout", "6f"], ["end", None]]]})
    cl = run.client()
    r = run.call(cl.execute_cmd, "x")
    if run.must(r, "cmd", "execute_cmd"):
        run.check(r.value == ("o", "", -1), "rc", "%r" % (r.value,))
'''
