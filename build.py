#!/usr/bin/env python3
"""setup_cmd: builds the executors and the programs. Checks build again what they need."""
import glob
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

bins = sorted(os.path.basename(p)[:-3] for p in glob.glob(f"{vlib.VERIF}/harness/src/bin/*.rs"))
vlib.build(*bins)
vlib.build_cli()
print("built", *bins)
