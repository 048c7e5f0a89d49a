#!/usr/bin/env python3
"""replay.py out/replay/<PROP>.json: rebuild from /repo and run the recorded case alone."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "py")); sys.dont_write_bytecode = True
import build as B, props_table as T
v = json.load(open(sys.argv[1])); prop = v["property"]; kind = T.TABLE[prop]
scratch = tempfile.mkdtemp(prefix="verif-replay-")
try:
    if kind[0] != "bin":
        sys.exit(__import__(kind[1]).replay(v, scratch))
    exe = B.harness(prop, scratch, kind[1])
    if exe is None: sys.exit(3)
    cmd = [exe, prop, v["tier"], scratch] + (["--only", "%d:%d" % (v["shard"], v["case"])] if v.get("reproduced_alone", True) else [])
    sys.exit(subprocess.run(cmd, env=dict(os.environ, SHIM_DIR=scratch, **kind[1].get("env", {})), cwd=scratch).returncode)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
