#!/usr/bin/env python3
"""Setup: nothing has to be built; checks that the machinery and the code under test can be imported."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import adf, common, gen, ref  # noqa: E402

d = adf.embed(adf.typical("tableCell"))
assert ref.plain(ref.render(d)) == "\n| w<br> |\n", ref.render(d)
assert sum(1 for _ in gen.universe("quick")) > 1000
common.load()
print("ok")
