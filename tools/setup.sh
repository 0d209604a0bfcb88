#!/bin/bash
# Builds everything once, offline. The checks build again from /repo's current tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence build
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import check
check.build_all(['rust', 'rustt', 'c', 'py'])
P
