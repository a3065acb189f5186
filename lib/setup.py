#!/usr/bin/env python3
"""setup_cmd: prebuild the trees the checks use (each check also builds on demand)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry   # noqa: E402
import sumobuild  # noqa: E402

for variant in sorted({g["variant"] for p in registry.PROPS.values() for g in p["groups"]}):
    print(variant, sumobuild.build(variant, print))
