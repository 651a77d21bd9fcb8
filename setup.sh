#!/bin/bash
# builds the symbolic executor, the harness crates (LLVM IR and native) from the committed files
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import build
for h in ('parser', 'ludtwig'):
    b = build.Build(h); b.ir(); b.native()
P
