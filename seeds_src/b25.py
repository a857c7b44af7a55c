ID = "p25-escape-joins-control"
PROPERTY = "P25"
NEEDS = "a string with _x and four hex digits directly followed by a control character"
BREAKS = "the escape of '_x' is left out when no closing underscore follows, but the escape of the next character brings one: the text decodes to something else"
EDITS = [("serializer.py", 'string_value = re.sub("(?i)_(x)", "_x005F_\\\\1", string_value)', 'string_value = re.sub("(?i)_(x(?=[0-9a-f]{4}_))", "_x005F_\\\\1", string_value)')]
DEMO = '''
def demo(run):
    from pypsrp.powershell import PowerShell, RunspacePool
    h = run.host({"plans": [[["echo_args"], ["end", "Completed"]]]})
    pool = RunspacePool(run.wsman())
    pool.open()
    ps = PowerShell(pool)
    vals = ["a_x0041\\nb", "_x0041_", "plain"]
    ps.add_cmdlet("echo")
    for v in vals:
        ps.add_argument(v)
    out = ps.invoke()
    run.check(list(out) == vals, "value", "echoed %r" % (list(out),))
'''
