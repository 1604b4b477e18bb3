"""setup_cmd: nothing to build; checks that the tools are there"""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3
from pyvc import api
print('z3', z3.get_version_string())
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy; print("numpy", numpy.__version__, "scipy", scipy.__version__)'], check=True)
