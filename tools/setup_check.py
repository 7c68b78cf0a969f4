"""setup_cmd: verifies that the tools the checks need are present. Builds nothing."""
import subprocess
import sys
import z3
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
subprocess.check_call(["/opt/venv/bin/python", "-c", "import requests, fences; print('repository interpreter ok')"])
