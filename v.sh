#!/bin/bash
# v.sh UNIT: extract and verify one unit (development helper)
mkdir -p /tmp/vx
python3 "$(dirname "$0")"/lib/vext.py ${ROOT:-/repo/src/rust/fcb_core/src} "$(dirname "$0")"/contracts/$1.vx > /tmp/vx/$1.rs && verus /tmp/vx/$1.rs --multiple-errors 5 ${@:2}
