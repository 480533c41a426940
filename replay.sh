#!/bin/bash
# replay.sh FILE [trace]: builds against /repo's working tree and replays one violation exactly.
here=$(cd "$(dirname "$0")" && pwd)
"$here/sim/build.sh" || { echo "the build failed" >&2; exit 2; }
p=release; grep -q "^profile checked" "$1" && p=debug; grep -q "^profile probed" "$1" && p=probe/debug
exec "$here/build/$p/harness" "${2:-replay}" "$1"
