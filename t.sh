#!/bin/bash
# developer helper: run checks, show only what is not ok
for p in "$@"; do timeout 1200 ./run.py $p -v 2>&1 | awk '/TIMEOUT/ || !/viol=0 inc=0/ || !/ ok / || /mism=[1-9]/' | cut -c1-${W:-260} | head -${H:-25}; done
