ID = "p04-signal-retried"
PROPERTY = "P04"
NEEDS = "the answer to a Signal request is lost after the server acted on it"
BREAKS = "WSMan.signal repeats the request after a read timeout, so a signal is delivered twice"
EDITS = [("wsman.py", '''        res = self.invoke(WSManAction.SIGNAL, resource_uri, resource, option_set, selector_set, timeout)
''', '''        res = self.invoke(
            WSManAction.SIGNAL, resource_uri, resource, option_set, selector_set, timeout, retries_on_read_timeout=1
        )
''')]
DEMO = '''
def demo(run):
    from pypsrp.shell import Process, SignalCode, WinRS
    h = run.host({"procs": [[["out", "stdout", "6f"], ["hang"]]]})
    w = run.wsman(operation_timeout=5, read_timeout=10)
    sh = WinRS(w)
    sh.open()
    p = Process(sh, "exe")
    p.begin_invoke()
    h.arm({"on": "Signal", "kind": "drop_resp"})
    try:
        p.signal(SignalCode.CTRL_C)
    except Exception as e:
        print(type(e))
    run.settle()
    n = sum(1 for e in h.effects if e["kind"] == "Signal")
    run.check(n == 1, "twice", "signal carried out %d times" % n)
'''
