#!/bin/bash
# builds the MIR driver and checks that the tree can be dumped
cd "$(dirname "$0")" || exit 1
python3 sa/build.py
