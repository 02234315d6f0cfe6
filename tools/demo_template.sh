#!/bin/bash
# compiles demo.rs (beside this file) against the crate as built from /repo and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/overlay.py
cd /opt/vp/ws
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
cargo build --offline -p fcb_core --lib --message-format=json 2>/dev/null > "$tmp/msgs"
ext=$(python3 - "$tmp/msgs" <<'P'
import json, sys
d = {}
for l in open(sys.argv[1]):
    m = json.loads(l)
    if m.get("reason") == "compiler-artifact":
        for f in m["filenames"]:
            if f.endswith((".rlib", ".so")): d[m["target"]["name"].replace("-", "_")] = f
if "cjseq2" in d: d["cjseq"] = d["cjseq2"]
print(" ".join(f"--extern {k}={d[k]}" for k in ("fcb_core", "cjseq", "serde", "serde_json", "chrono", "async_trait", "bytes", "http_range_client", "fallible_streaming_iterator") if k in d))
P
)
rustc --edition 2021 -A warnings -C debuginfo=0 -o "$tmp/demo" "$here/demo.rs" $ext -L dependency=/opt/vp/ws/target/debug/deps
cd "$tmp"
exec 3>&1
timeout 120 "$tmp/demo"
