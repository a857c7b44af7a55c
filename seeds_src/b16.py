ID = "p16-temporary-file-left"
PROPERTY = "P16"
NEEDS = "a fetch that fails after the temporary file was made: another checksum, or a destination that cannot be written"
BREAKS = "the temporary file with what was fetched stays behind on the local disk"
EDITS = [("client.py", '''                shutil.copy(path, dest)
            finally:
                os.remove(path)
''', '''                shutil.copy(path, dest)
            except OSError:
                os.remove(path)
                raise
            else:
                os.remove(path)
''')]
DEMO = '''
def demo(run):
    import tempfile
    h = run.host({"plans": [[["call", "fetch"]]]})
    fl = files.Files(h)
    fl.fs[files.abspath("C:\\\\x")] = b"what is there"
    fl.tamper = lambda d: d[:-1]
    d = fw.scratch_dir(run)
    tmp = os.path.join(d, "tmp")
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    cl = run.client()
    r = run.call(cl.fetch, "C:\\\\x", os.path.join(d, "f"))
    run.check(not r.ok and not os.listdir(tmp), "left", "%s, left %r" % (r, os.listdir(tmp)))
'''
