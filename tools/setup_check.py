"""Nothing has to be built: see that the simulator imports the code."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simkit import sim  # noqa: E402

sim.prepare()
print('simulator ready on Python', sys.version.split()[0])
