#!/usr/bin/env python3
"""setup_cmd: builds the executables and harnesses of all checks into the object cache."""
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build

t = time.time()
print(build.build_cli(), "%.1f s" % (time.time() - t))
for name, kw in build.HARNESSES:
    print(build.build_harness(name, **kw), "%.1f s" % (time.time() - t))
build.build_gui()
build.build_dialogs()
build.build_cli(san=True)           # the sanitized ones of P25
for name, kw in build.HARNESSES[:1]:
    build.build_harness(name, san=True, **kw)
build.build_harness("loader", san=True)
build.build_harness("roundtrip", san=True)
print("sanitized and editor", "%.1f s" % (time.time() - t))
build.build_shared("faults")
build.build_shared("place")
