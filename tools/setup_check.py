"""Offline sanity check of the environment; nothing needs building (the code under test is pure Python, imported from /repo)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import hypothesis, torch, tensorflow, tinynn
assert os.path.realpath(tinynn.__file__).startswith(os.path.realpath(harness.REPO)), tinynn.__file__
print('ok', hypothesis.__version__, torch.__version__, tensorflow.__version__)
