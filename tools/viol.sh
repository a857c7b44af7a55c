#!/bin/sh
# show the newest replays of a property: tools/viol.sh P07 [count]
for f in $(ls -t /verif/replays/$1-*.json | head -${2:-3}); do python3 - $f <<'P'
import json,sys
j=json.load(open(sys.argv[1])); print(sys.argv[1]); print(j['viol']); print(json.dumps(j['scenario'])[:1100])
P
done
