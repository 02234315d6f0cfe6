#!/bin/bash
# builds the driver and the crate it links once, so that the checks only rebuild what changed
cd "$(dirname "$0")"
python3 lib/ws.py cargo build --offline -q -p driver 2>/dev/null || true
(cd build/ws && env -u RUSTUP_TOOLCHAIN CARGO_NET_OFFLINE=true timeout 600 cargo kani -p kharn --target-dir ../ktarget --only-codegen > /dev/null 2>&1) || true
exit 0
