#!/bin/bash
# Run in /repo after its build: exits 0 when the table behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=/repo/python exec /opt/vp/venv/bin/python "$here/demo.py"
