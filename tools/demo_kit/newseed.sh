#!/bin/bash
# newseed.sh ID PROP "needs" "breaks": takes the diff of the scratch worktree /tmp/wt and
# /tmp/seed/main.rs, confirms both, and writes /verif/seeded/ID.
set -u
id=$1; prop=$2; needs=$3; breaks=$4
out=/verif/seeded/$id; kit=/verif/tools/demo_kit
mkdir -p "$out"
git -C /tmp/wt diff > "$out/patch.diff"
[ -s "$out/patch.diff" ] || { echo "no diff"; exit 1; }
if [ -f /tmp/seed/demo.sh ]; then cp /tmp/seed/demo.sh "$out/demo.sh"; cp /tmp/seed/extra/* "$out/" 2>/dev/null; else
cp "$kit/demo.sh" "$kit/kit.rs" "$kit/Cargo.toml.in" "$out/"; cp /tmp/seed/main.rs "$out/main.rs"; fi
chmod +x "$out/demo.sh"
python3 - "$out" "$prop" "$needs" "$breaks" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1,ensure_ascii=False)
PY
(. /opt/vp/env.sh; cd /tmp/wt; export CARGO_TARGET_DIR=/tmp/wt-target; clear_dummy_inputs
 cargo test --workspace --features "$FEATURES" --no-fail-fast --offline >/tmp/seed/test.log 2>&1; grep -E "^test .*FAILED|^error" /tmp/seed/test.log | wc -l; grep -c "^test .* ok$" /tmp/seed/test.log)
(cd /tmp/wt && bash "$out/demo.sh" >/tmp/seed/demo-bad.log 2>&1; echo "demo with the change: $? $(tail -1 /tmp/seed/demo-bad.log | cut -c1-200)")
git -C /tmp/wt stash -q
(cd /tmp/wt && bash "$out/demo.sh" >/tmp/seed/demo-ok.log 2>&1; echo "demo without: $? $(tail -1 /tmp/seed/demo-ok.log | cut -c1-200)")
git -C /tmp/wt stash drop -q
