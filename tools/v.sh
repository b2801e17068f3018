#!/bin/bash
cd /verif/checks && cargo build --offline 2>&1 | grep -A14 "^error" | head -${2:-60}
cd /verif && VERIF_VERBOSE=1 ./run.sh $1 $3 2>&1 | grep -av "^Warn" | grep -a -A300 "^C[0-9][0-9]\|FAIL\|VIOL" | head -${2:-60}
