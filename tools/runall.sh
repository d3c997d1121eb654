#!/bin/bash
# run every check (or those named) at a tier; a line per check
cd "$(dirname "$0")/.."
tier=${TIER_:-quick}
for c in ${@:-$(python3 -c "import sys;sys.path.insert(0,'tools');import plans;print(*plans.PLANS)")}; do
  t=$(date +%s); o=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.py $c $tier 2>&1); rc=$?
  echo "$c rc=$rc $(( $(date +%s) - t ))s $(echo "$o" | tail -2 | cut -c1-400 | tr '\n' ' ')"
done
