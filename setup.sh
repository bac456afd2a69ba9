#!/bin/bash
# nothing to build ahead of time: every check extracts and builds what it needs from /repo
cd "$(dirname "$0")" && python3-vt -c 'import z3, gv.session' && clang++ --version >/dev/null && cvc5 --version >/dev/null
