#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" MAIN.rs  -- the patch is the diff of the scratch copy /tmp/scratch against /repo's HEAD
set -e
K=$(cd "$(dirname "$0")" && pwd); D=$K/../seeded/$1
mkdir -p "$D/src"
git -C /tmp/scratch diff > "$D/patch.diff"
cp "$K/seedkit/Cargo.toml" "$K/seedkit/Cargo.lock" "$K/seedkit/demo.sh" "$D/"; cp "$K/seedkit/src/server.rs" "$D/src/"; cp "$5" "$D/src/main.rs"
python3 - "$2" "$3" "$4" > "$D/meta.json" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
