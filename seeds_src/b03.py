ID = "p03-reauth-connect-timeout"
PROPERTY = "P03"
NEEDS = "message encryption, a poll whose answer is lost, and a connect that times out when the retry authenticates again"
BREAKS = "a connect timeout while authenticating for the retry of a poll is raised at once instead of counting as one of its five retries"
EDITS = [("wsman.py", '''                except (requests.ReadTimeout, requests.ConnectTimeout) as e:
                    log.exception("%s during initial authentication''', '''                except requests.ReadTimeout as e:
                    log.exception("%s during initial authentication''')]
DEMO = '''
def demo(run):
    from pypsrp.shell import Process, WinRS
    h = run.host({"auth": "ntlm", "encrypt": True, "connect": [["ok"], ["timeout"]], "procs": [[["out", "stdout", "6f75740a"], ["end", 3]]]})
    w = run.wsman(operation_timeout=5, read_timeout=10)
    sh = WinRS(w)
    sh.open()
    p = Process(sh, "exe")
    p.begin_invoke()
    h.arm({"on": "Receive", "kind": "drop_resp"})
    r = run.call(p.end_invoke)
    if run.must(r, "recv", "polling through one lost answer and one unreachable moment"):
        run.check((p.stdout, p.rc) == (b"out\\n", 3), "data", "got %r" % ((p.stdout, p.rc),))
'''
