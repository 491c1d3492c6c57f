"""Setup: nothing has to be built; confirms that the reference layouts load and that the log builder works on its own."""
import os
import sys
import zlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc.layout import VERSIONS, layout  # noqa: E402
from mc.synth import log, plain_sample  # noqa: E402

for v in VERSIONS:
    lay = layout(v)
    assert lay.size("Header") == 480
    smp = plain_sample(v, 1, 2)
    data = log(v, [smp])
    assert len(data) == 480 + len(smp) and zlib.decompress(smp.sections[0]) == smp.sstat
print("reference layouts of", len(VERSIONS), "versions loaded")
