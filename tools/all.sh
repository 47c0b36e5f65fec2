#!/bin/bash
# run all (or the given) checks, 5 at a time; summary on stdout
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(cd props && ls C*.py | sed 's/.py//')
printf '%s\n' $ids | xargs -P5 -I{} sh -c 'timeout 900 python3-vt check.py {} > /tmp/out.{} 2>/tmp/err.{}; echo "{} rc=$? $(grep -v INFO /tmp/out.{} | grep -E "obligations|VIOL|violated|undecided|note|KNOWN" | head -4 | tr "\n" "|" | cut -c1-330)"' | sort
