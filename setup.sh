#!/bin/bash
# builds the tools of the framework (offline): the IR dumper and the native driver runtime
set -e
cd "$(dirname "$0")"
python3 check.py --setup
