ID = "p13-secret-starts-with-bom"
PROPERTY = "P13"
NEEDS = "a secure string from the server whose first character is U+FEFF or U+FFFE"
BREAKS = "the first character of the secret is taken for a byte order mark: dropped, or the rest is decoded in the other byte order"
EDITS = [("serializer.py", '''to_unicode(unpadded_bytes, "utf-16-le")''', '''to_unicode(unpadded_bytes, "utf-16")''')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    secret = chr(0xFEFF) + "secret"
    h = run.host({"plans": [[["out", ["SS", secret]], ["end", "Completed"]]]})
    w = run.wsman()
    pool = RunspacePool(w)
    pool.open()
    pool.exchange_keys()
    ps = PowerShell(pool)
    ps.add_script("#")
    r = run.call(ps.invoke)
    if run.must(r, "invoke", "invoke"):
        run.check([str(x) for x in ps.output] == [secret], "secret", "got %r" % (ps.output,))
'''
