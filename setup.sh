#!/bin/bash
# builds the executor and compiles the harnesses of the current tree into the cache
cd "$(dirname "$0")" || exit 1
python3 sx/driver.py --setup
