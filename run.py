#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import check
rc = check.main(sys.argv[1:])
sys.stdout.flush()
import shutil
from engine import build
if build._scratch: shutil.rmtree(build._scratch, ignore_errors=True)
os._exit(rc)
