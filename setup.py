#!/usr/bin/env python3
"""builds the extractor, the harness and the CLI into .build (checks do the same, incrementally)"""
import sys
import check
bad = 0
for f in (check.build_vx, check.build_vh, check.build_cli):
    ok, log, path = f()
    print(("built " if ok else "FAILED ") + path)
    if not ok:
        print(log[-3000:])
        bad = 1
sys.exit(bad)
