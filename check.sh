#!/bin/bash
# ./check.sh Cxx — rebuilds what the check needs from /repo's working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true PYTHONDONTWRITEBYTECODE=1
exec python3 tools/check.py "$@"
