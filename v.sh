#!/bin/bash
# developer shortcut: extract and verify
cd /verif; mkdir -p build/gen; ./build/extract/release/extract ${REPO:-/repo} contracts build/gen $X || exit 1
exec tools/errs.py "$@"
