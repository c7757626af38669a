"""The command line tools run in virtual time."""
import os
if os.environ.get("NDT_WORLD"):
    import time
    import ndt_world
    time.sleep = ndt_world.pass_time
    time.time = time.monotonic = lambda: 1000.0 + ndt_world.now
