#!/bin/sh
# sanity of the tool chain; nothing has to be built beforehand (every check regenerates its inputs from /repo)
cd "$(dirname "$0")" || exit 2
set -e
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
clang++ --version | head -1
g++ --version | head -1
cvc5 --version | head -1
mkdir -p evidence/replay
