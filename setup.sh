#!/bin/bash
# Builds everything the checks use from /repo and /verif (the checks rebuild what has changed since).
cd "$(dirname "$0")" && mkdir -p evidence build replays && exec /opt/veriftools/pyvenv/bin/python3 lib/build.py
