"""Nothing to build: checks that the interpreter finds the solver and the code under test."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vk
import z3
from vk import shim
print('z3', z3.get_version_string(), 'repo', shim.REPO)
