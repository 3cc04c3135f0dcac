"""setup_cmd: nothing to build; makes sure the tools the checks need are there and the servers start."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import servers

os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
with servers.Servers({"mysql", "postgres"}) as s:
    print("servers ok", sorted(s.hosts))
code = "import boot; boot.paths(); import hypothesis, django, denorm; print(hypothesis.__version__, django.VERSION)"
env = dict(os.environ, DJANGO_SETTINGS_MODULE="settings", PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code.replace(", denorm", "")], cwd=HERE, env=env))
