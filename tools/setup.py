#!/usr/bin/env python3
"""Compiles the harness once, so that the go build cache is warm and problems show early. Checks do not depend on it."""
import os, subprocess, sys, tempfile, shutil
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
e=dict(os.environ,GOFLAGS="-mod=mod -buildvcs=false",GOPROXY="off",GOSUMDB="off",GOTOOLCHAIN="local",CGO_ENABLED="1")
e.setdefault("HOME","/root")
d=tempfile.mkdtemp(prefix="verif-setup-")
try:
    for f in ("go.mod","go.sum"): shutil.copy(os.path.join(root,"harness",f),d)
    for a in (["./instr"],["./vcase"],["-race","./vcase"]):
        subprocess.run(["go","build","-modfile="+os.path.join(d,"go.mod"),"-o",os.path.join(d,"x"),*a],cwd=os.path.join(root,"harness"),env=e,check=True)
finally:
    shutil.rmtree(d,ignore_errors=True)
