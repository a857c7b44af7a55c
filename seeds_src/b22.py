ID = "p22-no-retries-with-key-password"
PROPERTY = "P22"
NEEDS = "certificate authentication with an encrypted key, and a server that refuses the first connection"
BREAKS = "connections made with an encrypted client key are not retried"
EDITS = [("_pool_manager.py", '''        adapter = HTTPSAdapterWithKeyPassword(
            max_retries=max_retries,
''', '''        adapter = HTTPSAdapterWithKeyPassword(
''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import RunspacePool
    d = fw.scratch_dir(run)
    pem = {}
    for k in ("certificate_pem", "certificate_key_pem"):
        pem[k] = os.path.join(d, k)
        open(pem[k], "w").close()
    h = run.host({"auth": "certificate", "ssl": True, "port": 5986, "key_password": "secret", "client_cert": pem["certificate_pem"], "connect": [["refuse"], ["refuse"]]})
    w = run.wsman(h, auth="certificate", certificate_key_password="secret", reconnection_retries=3, reconnection_backoff=0.5, **pem)
    run.must(run.call(RunspacePool(w).open), "open", "opening with two refused connections and three retries")
'''
