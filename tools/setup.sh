#!/bin/sh
# builds the harnesses from /repo's working tree (every check does this again if the sources differ)
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, 'lib')
import vlib, os
for h in ('h_core', 'h_back'):
    if os.path.exists('harness/%s.c' % h):
        print(vlib.build(h))
"
