#!/bin/bash
# builds the extractor and the harness (with the crate's dependencies) into build/, which git ignores
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0,'tools')
import check
for n,f in (('extract',check.build_extract),('harness',check.build_harness)):
    rc,log=f()
    print(n,rc)
    if rc: print(log[-3000:]); sys.exit(1)
"
