"""setup_cmd: checks that the tools the checks need are there, and mirrors /repo once. Each check
builds what it needs itself, so nothing here has to be kept."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
for cmd in ("g++ --version", "clang++ --version", "protoc --version", "/usr/bin/python3 -c 'import numpy, scipy'",
            "PYTHONPATH=/opt/vp/cython029 /usr/bin/python3 -m cython --version"):
    subprocess.check_call(cmd, shell=True, stdout=subprocess.DEVNULL)
os.makedirs(vbuild.B, exist_ok=True)
vbuild.sync()
print("ready")
