#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here"
exec timeout 250 "$py" "$here/demo.py"
