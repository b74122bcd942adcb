"""setup_cmd: the tools the checks need are present (nothing is installed or built: the checks trace /repo's source directly)"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import prove
import jax, equinox
print("jax", jax.__version__, "z3", prove.z3.get_version_string())
