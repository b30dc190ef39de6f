"""setup_cmd: nothing is built; verify that the interpreters are there."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, pandas, networkx, torch, gpytorch, cvxpy"], check=True)
subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3"], check=True)
print("ok")
