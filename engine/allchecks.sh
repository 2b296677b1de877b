#!/bin/bash
# run every check; print one line each
cd "$(dirname "$0")/.."
ls checks/[a-z][0-9][0-9].py | sed 's/.*\///;s/\.py//' | tr a-z A-Z | xargs -P 6 -I{} sh -c 'timeout 900 python3 checks/run.py {} > /tmp/ac.{} 2>&1; rc=$?; echo "{} rc=$rc $(head -1 /tmp/ac.{} | cut -c1-150)"; [ $rc = 0 ] || sed -n 2,4p /tmp/ac.{} | cut -c1-300'
