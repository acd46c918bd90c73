"""Nothing to compile: checks that the interpreter and the solvers load."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, openmdao, z3, mpmath
print("python", sys.version.split()[0], "numpy", numpy.__version__, "openmdao", openmdao.__version__, "z3", z3.get_version_string())
