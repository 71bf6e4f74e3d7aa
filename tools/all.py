#!/usr/bin/env python3
"""run every check against a source tree, in parallel: all.py ROOT [ids...]; prints the checks that are not quiet"""
import os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from qta import catalog as C

root = sys.argv[1]
ids = sys.argv[2:] or [p["id"] for p in C.PROPS]
out = tempfile.mkdtemp(prefix="qta_out_")


def one(i):
    p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), i, "--root", root], capture_output=True, text=True, env=dict(os.environ, QTA_OUT=out))
    return i, p.returncode, p.stdout + p.stderr


with ThreadPoolExecutor(8) as ex:
    for i, rc, o in ex.map(one, ids):
        if rc:
            print("== %s rc=%d" % (i, rc))
            print("\n".join(o.splitlines()[: int(os.environ.get("LINES_MAX", "4"))]))
subprocess.run(["rm", "-rf", out])
