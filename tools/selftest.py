"""setup_cmd: nothing to build; verify that the interpreter and the tree are usable."""
import os, subprocess, sys
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.exit(subprocess.call([py, "-c", "import sys; assert sys.version_info >= (3, 12); import mcpyrate"]))
