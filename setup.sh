#!/bin/bash
# builds the extractor and the harness once (each check builds them again when needed)
cd "$(dirname "$0")" && python3 - <<'P'
import check
x, err = check.build_extract()
print(err or x)
h, hooks, err = check.build_harness()
print(h or err)
raise SystemExit(0 if x and h else 1)
P
