#!/opt/venv/bin/python
"""Nothing is built ahead of a check; this only makes sure that what the checks import is there."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
import check   # noqa: E402

check.preload()
print("ready")
