#!/usr/bin/env python3
"""checks that the tools exist; nothing is built ahead: every check extracts /repo's source itself"""
import shutil, sys
miss = [t for t in ("cbmc", "goto-cc", "goto-instrument", "z3", "perl", "gcc") if not shutil.which(t)]
print("missing: " + " ".join(miss) if miss else "tools present")
sys.exit(1 if miss else 0)
