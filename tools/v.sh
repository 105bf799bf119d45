#!/bin/bash
# v.sh MODULE...: extract and verify modules
bash /verif/tools/gen.sh || exit 1
cd /verif/build/gen
a=(); for m in "$@"; do a+=(--verify-only-module "$m"); done
verus gen.rs --multiple-errors 3 "${a[@]}" 2>&1 | grep -v '^note: verifying\|^$\|warning' > /tmp/v.txt
grep -B2 -A22 '^error' /tmp/v.txt | head -${LINES_MAX:-120}
grep 'verification results' /tmp/v.txt
