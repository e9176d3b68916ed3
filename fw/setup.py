"""setup_cmd: nothing has to be built beforehand; see that the tools the checks use are there and every module parses."""
import glob
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/vp/py2tree.py"):
    if not os.path.exists(t):
        sys.exit("missing: " + t)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.exit(0)
