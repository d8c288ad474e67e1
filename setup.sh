#!/bin/sh
# Nothing to build: pure Python, run straight from /repo's working tree.  Only checks the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path[:0] = ['/repo', '.']
from vsim import seams; seams.install()
import warcio, six, requests, urllib3, fsspec; print('ok', sys.version.split()[0])"
