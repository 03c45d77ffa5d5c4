#!/usr/bin/env python3
"""Setup: everything is built per run from /repo; only check that the tools are present."""
import shutil, sys
need = ["cargo", "rustc", "z3", "cvc5"]
missing = [n for n in need if not shutil.which(n)]
print("tools ok" if not missing else f"missing: {missing}")
sys.exit(1 if missing else 0)
