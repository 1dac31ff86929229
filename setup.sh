#!/bin/sh
# Checks the specification's syntax, and the Java overrides of its operators against their TLA+ definitions.
cd "$(dirname "$0")" || exit 2
exec python3 harness/setup.py
