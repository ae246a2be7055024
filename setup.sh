#!/bin/bash
# builds every harness once (checks rebuild whatever changed in /repo)
cd "$(dirname "$0")" && exec python3 vlib/prebuild.py
