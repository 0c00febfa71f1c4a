#!/bin/bash
# Prebuilds what the checks use; every check also builds what it finds missing.
cd "$(dirname "$0")" && exec python3 -c '
import check
ok, er = check.build_kx()
print("kx", ok, er[-300:])
for h in ("base", "compression", "formats"):
    import os
    if os.path.isdir(os.path.join(check.V, "harness", h)):
        b, er = check.build_harness(h)
        print(h, b, er[-300:])
'
