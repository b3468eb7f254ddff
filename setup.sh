#!/bin/bash
# Checks that the tools are there and warms the build cache; every check builds
# its own engine, so nothing here is needed later.
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
go version || exit 1
VERIF_CASES=50 bash check.sh C01 quick || exit 1
VERIF_CASES=5 bash check.sh C18 quick || exit 1
