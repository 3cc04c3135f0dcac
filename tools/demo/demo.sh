#!/bin/bash
# cwd is the repository; 0 when the behaviour is right
exec timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
