#!/bin/bash
# Build the harness once (every check rebuilds it from /repo anyway).
cd "$(dirname "$0")" && exec python3 -c 'import sys; sys.path.insert(0,"lib"); sys.dont_write_bytecode=True; import vf; vf.build()'
