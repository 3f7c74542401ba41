#!/bin/bash
# Builds the verified text and the replay runner once (checks rebuild what changed).
cd "$(dirname "$0")" || exit 2
python3-vt -c "
import sys; sys.path.insert(0, 'engine')
import build
r = build.build_ir()
print('ir', r['ll'], r.get('error', '')[:2000])
print('native', build.build_native())
"
exit 0
