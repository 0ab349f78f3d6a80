#!/bin/bash
# replay.sh FILE: rebuild and replay one recorded violation, printing its history
cd "$(dirname "$0")/.." && exe=$(python3 sim/build.py) && exec "$exe" replay --replay "$1" -v
