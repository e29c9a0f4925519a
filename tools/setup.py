"""Nothing is built: checks that everything the checks need is installed."""
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy  # noqa: F401,E402
import pandas  # noqa: F401,E402
import yaml  # noqa: F401,E402
import z3  # noqa: E402

print("z3", z3.get_version_string())
print(subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.splitlines()[:1])
