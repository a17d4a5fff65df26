#!/bin/bash
# Warms the build cache: every harness package is built once, offline.
cd "$(dirname "$(realpath "$0")")" || exit 1
exec python3 driver.py --setup
