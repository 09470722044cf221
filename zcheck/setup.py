"""setup: verify the toolchain and build the IR exporter into build/ (ignored by git)"""
import os, sys
from . import harness as HN
os.makedirs(os.path.join(HN.ROOT, "build"), exist_ok=True)
HN.build_tool(os.path.join(HN.ROOT, "build", "irdump"))
print("setup ok")
