#!/bin/sh
# runs every check (or those given) and prints one line each
cd "$(dirname "$0")/.."
tier=${TIER:-quick}
for p in ${*:-$(python3 -c 'from checks import CHECKS; print(*sorted(CHECKS))')}; do
  python3 run.py --prop $p --tier $tier -v > build/log.$p 2>&1; echo "$p rc=$? $(tail -1 build/log.$p)"
  grep -E "^(VIOL|KNOWN|UNCONF|ENCOD|INCOM|VACU|NOT-|BUILD|violated)" build/log.$p | cut -c1-300 | head -${LINES_MAX:-6}
done
