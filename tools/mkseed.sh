#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": store /repo's current uncommitted diff as a planted bug (demo.rs on stdin), undo it
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
if [ -n "${DEMO_SH:-}" ]; then cat > $D/demo.sh; elif [ -n "${FFI:-}" ]; then cat > $D/demo.rs; cp /verif/tools/demo_ffi.sh $D/demo.sh; else cat > $D/demo.rs; cp /verif/tools/demo_rust.sh $D/demo.sh; fi
python3 - "$@" > $D/meta.json <<'P'
import json,sys; print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
