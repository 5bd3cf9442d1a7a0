#!/usr/bin/env python3
"""setup_cmd: builds what the checks run, from the committed files."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
ck = core.Check("setup", "quick", 1)
core.observer(ck)
core.observer(ck, triple=True)
core.observer(ck, consts=True)
core.observer(ck, plain=True)
for f in (("threads",), ("threads", "triple")):
    core.cargo_build(ck, os.path.join(core.VERIF, "harness"), f)
import updatechecks
updatechecks.updater(ck)
updatechecks.standin(ck)
import shutil
shutil.rmtree(ck.scratch, ignore_errors=True)
print("ok")
