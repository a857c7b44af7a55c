ID = "p27-no-proxy-https-only"
PROPERTY = "P27"
NEEDS = "a client without TLS that turns proxies off, in an environment that names a proxy"
BREAKS = "turning proxies off has no effect for connections without TLS: they go through the environment's proxy"
EDITS = [("wsman.py", '''            session.proxies = {
                proxy_key: False,  # type''', '''            session.proxies = {
                "https": False,  # type''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import RunspacePool
    run.host({})
    os.environ["http_proxy"] = "http://elsewhere.example:3128"
    for k in ("no_proxy", "NO_PROXY"):
        os.environ.pop(k, None)
    w = run.wsman(no_proxy=True)
    run.must(run.call(RunspacePool(w).open), "open", "opening with proxies turned off")
    run.check(all(a[1] == "srv" for a in run.net.attempts), "where", repr(run.net.attempts))
'''
