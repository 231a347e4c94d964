#!/bin/bash
# dev.sh <harness> : build into /tmp/vdev/<harness>  (development only)
cd /verif && python3 - "$1" <<'PY'
import sys
sys.argv=[sys.argv[0],sys.argv[1]]
sys.path.insert(0,'/verif')
import check,os
try: print(check.build(sys.argv[1], "/tmp/vdev"))
except check.BuildError as e: print("BUILD", str(e)[-6000:])
print
PY
