#!/bin/sh
# run with cwd = the repository, after its build
exec env PYTHONDONTWRITEBYTECODE=1 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
