#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 GIT_TERMINAL_PROMPT=0
exec timeout 250 python "$here/demo.py"
