#!/usr/bin/env python3
"""Builds the dependencies of the harness programs, and has SANY parse the specification."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
from vt import *

chk = Check("C00")
p = Program()
p.site("{u8}", [], ["1"])
src, _ = program_main(p, {0: 1}, [0])
make_crate(os.path.join(chk.dir, "setup"), "setup", {"src/main.rs": src})
for cmd in (["build"], ["build", "--profile", "shipping"], ["check"]):
    rc, out, err = cargo(os.path.join(chk.dir, "setup"), cmd + ["--offline"])
    if rc:
        sys.exit("cargo %s failed:\n%s" % (" ".join(cmd), err[-3000:]))
toolchain[0] = NIGHTLY
if cargo(os.path.join(chk.dir, "setup"), ["check", "--offline"])[0]:
    print("no nightly compiler")
for f in sorted(os.listdir(SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", TLA_CP, "tla2sany.SANY", f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.exit("SANY rejects %s:\n%s" % (f, r.stdout.decode()))
shutil.rmtree(chk.dir, ignore_errors=True)
print("set up")
