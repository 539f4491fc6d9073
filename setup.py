"""Builds the search harness once, to show that it builds; every check builds it again from /repo's tree."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import run
ok, err = run.build_harness()
print('harness', 'built' if ok else err)
sys.exit(0 if ok else 1)
