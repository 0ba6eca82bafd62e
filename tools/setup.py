"""Setup: the framework is interpreted; check that the tools it needs are there."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import JARS, REPO, load_torch, setup_paths  # noqa: E402

setup_paths()
load_torch()
for j in JARS.split(":"):
    assert os.path.exists(j), j
subprocess.run(["java", "-version"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print("ready; code under test:", REPO)
