#!/bin/sh
# everything is built by check.py from the current tree; this only checks that the tools are there
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
RUSTUP_TOOLCHAIN=stable cargo --version
python3-vt -m py_compile check.py props.py engine/*.py
