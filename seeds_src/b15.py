ID = "p15-exact-multiple"
PROPERTY = "P15"
NEEDS = "a file whose size is a non-zero exact multiple of the read buffer"
BREAKS = "such a file is sent without its checksum, and the copy fails"
EDITS = [("client.py", '''                    if offset == total_size:
''', '''                    if len(data) < buffer_size:
''')]
DEMO = '''
def demo(run):
    h = run.host({"plans": [[["wait_input"], ["call", "copy"]]]})
    fl = files.Files(h)
    cl = run.client(max_envelope_size=20000)
    buf = int((cl.wsman.max_payload_size - 82) / 4 * 3)
    path = os.path.join(fw.scratch_dir(run), "f")
    data = os.urandom(buf * 2)
    with open(path, "wb") as f:
        f.write(data)
    r = run.call(cl.copy, path, "C:/x")
    if run.must(r, "copy", "copying"):
        run.check(data in fl.fs.values(), "data", "not there")
'''
