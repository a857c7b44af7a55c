#!/usr/bin/env python3
"""tools/mkseed.py DEF.py [--keep]: build /verif/seeded/<id>/ from a definition and confirm it.

A definition sets ID, PROPERTY, NEEDS, BREAKS, EDITS ([(file, old, new)]) and DEMO (the body of `def demo(run): ...`).
It is kept only if the patch applies to /repo's HEAD, the stable tests pass with it, and the demonstration exits 0 without and nonzero with it.
"""
import json, os, shutil, subprocess, sys, tempfile

V = "/verif"
HELPERS = ["__init__", "kernel", "seams", "net", "clixml", "wire", "values", "server", "fw"]
MAIN = '''"""Fails (exit 1) when the property is broken in the checked-out tree (cwd)."""
import os, random, shutil, sys, tempfile, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
tmp = tempfile.mkdtemp()
with open(os.path.join(tmp, "users"), "w") as f:
    f.write("DOM:user:pass\\nDOM:other:hunter2\\n")
os.environ["NTLM_USER_FILE"] = os.path.join(tmp, "users")
from psim import seams
seams.install(os.path.join(os.getcwd(), "src"), tmp)
from psim import clixml as cx, fw, kernel, values, wire, server
from psim.checks import common as c, files
from psim.clixml import S, I32, B


%s

try:
    random.seed(1)
    run = fw.Run("demo", {}, SEED if "SEED" in globals() else 1, tmp)
    with kernel.active(run.sim), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        run.warned = caught
        demo(run)
    for x in run.viol:
        print(x)
    rc = 1 if run.viol else 0
except BaseException as e:
    import traceback
    traceback.print_exc()
    rc = 1
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print("rc", rc)
os._exit(rc)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def main():
    d = {}
    exec(open(sys.argv[1]).read(), d)
    out = "%s/seeded/%s" % (V, d["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/psim/checks")
    for h in HELPERS:
        shutil.copy("%s/psim/%s.py" % (V, h), out + "/psim/")
    for h in ("cert.der", "rsa_keys.pem"):
        shutil.copy("%s/psim/%s" % (V, h), out + "/psim/")
    for h in ("__init__", "common", "files"):
        shutil.copy("%s/psim/checks/%s.py" % (V, h), out + "/psim/checks/")
    open(out + "/demo.py", "w").write(MAIN % d["DEMO"].strip())
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="seed")
    ok = True
    try:
        sh("cp -a /repo %s/repo" % tmp)
        r = tmp + "/repo"
        sh("git -C %s checkout -q -- . " % r)
        for f, old, new in d["EDITS"]:
            p = "%s/src/pypsrp/%s" % (r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("EDIT matches %d times: %r" % (s.count(old), old)); ok = False
            open(p, "w").write(s.replace(old, new, 1))
        diff = sh("git -C %s diff" % r).stdout
        open(out + "/patch.diff", "w").write(diff)
        # lines changed must be lines of the original repository
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        for f, old, new in d["EDITS"]:
            orig = sh("git -C /repo show %s:src/pypsrp/%s" % (base, f)).stdout
        for ln in diff.splitlines():
            if ln.startswith("-") and not ln.startswith("---") and ln[1:].strip():
                if not any(ln[1:] in sh("git -C /repo show %s:src/pypsrp/%s" % (base, f)).stdout for f, _, _ in d["EDITS"]):
                    print("WARNING: changed line not in the original:", ln)
        a = sh("bash %s/demo.sh" % out, cwd="/repo")
        print("clean demo:", a.returncode, a.stdout[-300:] + a.stderr[-300:] if a.returncode else "")
        b = sh("bash %s/demo.sh" % out, cwd=r)
        print("patched demo:", b.returncode, (b.stdout + b.stderr)[-400:])
        ok = ok and a.returncode == 0 and b.returncode != 0
        t = sh("cd %s && env -u REQUESTS_CA_BUNDLE -u CURL_CA_BUNDLE -u no_proxy -u NO_PROXY -u http_proxy -u https_proxy -u PYPSRP_SERVER PYTHONPATH=%s/src TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest tests/tests_pypsrp -q -p no:cacheprovider --timeout=300 -x 2>&1 | tail -4; cd %s && PYTHONPATH=%s/src /opt/venv/bin/python -c 'import pypsrp; print(pypsrp.__file__)'" % (r, r, r, r))
        print(t.stdout[-300:])
        ok = ok and "351 passed" in t.stdout and r in t.stdout
        c = sh("git -C /repo apply --check %s/patch.diff" % out)
        ok = ok and c.returncode == 0
        if ok and "--nocheck" not in sys.argv:
            k = sh("VERIF_REPO=%s %s/check %s --tier quick" % (r, V, d["PROPERTY"]))
            print(k.stdout[-500:])
            print("CAUGHT" if k.returncode == 1 and "VIOLATION property=%s" % d["PROPERTY"] in k.stdout else "MISSED")
    finally:
        shutil.rmtree(tmp)
    if not ok:
        print("NOT KEPT")
        shutil.rmtree(out)
    else:
        print("kept", out)


main()
