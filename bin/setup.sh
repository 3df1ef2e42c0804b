#!/bin/sh
# compiles the arithmetic overrides and checks the specification's own foundations
cd "$(dirname "$0")/.." && exec python3 harness/setup.py
