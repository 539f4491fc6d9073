#!/usr/bin/env python3
"""check.py <property> [--replay FILE]; check.py --shapes rewrites contracts/shapes.json from /repo"""
import sys, os, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import run
if sys.argv[1] == '--shapes':
    json.dump({f: run.file_shapes(f) for f in run.all_files()}, open(run.SHAPES, 'w'), indent=0, sort_keys=True)
    sys.exit(0)
sys.exit(run.main(sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else None))
