"""Nothing has to be built: checks that the tools the engine calls are there."""
import subprocess, sys, os
ok = True
for cmd in (["java", "-version"], ["/opt/venv/bin/python", "-c", "import torch, numpy"]):
    ok = subprocess.run(cmd, capture_output=True).returncode == 0 and ok
ok = ok and os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("ready" if ok else "missing tools")
sys.exit(0 if ok else 1)
