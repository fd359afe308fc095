#!/bin/bash
# run every claimed check with --strict, 6 at a time
cd "$(dirname "$0")/.."
ls rules/c[0-9]*.py | sed 's/.*\/c\([0-9]*\).py/C\1/' | xargs -P6 -I{} bash -c 's=$(date +%s); timeout 900 python3 run.py --property {} --strict >/tmp/ra.{} 2>&1; r=$?; echo "{} rc=$r $(( $(date +%s)-s ))s $(tail -1 /tmp/ra.{} | cut -c1-150)"' | sort
