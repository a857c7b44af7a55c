"""tools/trace.py REPLAY [n]: run a replay and print the first n trace entries."""
import json, sys, tempfile
sys.path.insert(0, "/verif")
from psim import runner
d = json.load(open(sys.argv[1]))
tmp = tempfile.mkdtemp()
runner.boot(tmp)
from psim import fw, kernel
m = runner.load(d["property"])
import random
random.seed(d["seed"])
run = fw.Run(d["property"], d["scenario"], d["seed"], tmp)
with kernel.active(run.sim):
    try:
        m.run(run, d["scenario"])
    except BaseException as e:
        print(type(e), str(e)[:300])
for t in run.sim.trace[: int(sys.argv[2]) if len(sys.argv) > 2 else 60]:
    print(t)
print(run.viol)
