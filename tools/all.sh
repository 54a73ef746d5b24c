#!/bin/bash
# every check on the current tree (or SA_REPO), one line each
cd "$(dirname "$0")/.."
ls sa/props/c[0-9][0-9].py | sed 's/.*\/c\([0-9]*\).py/C\1/' | xargs -P 7 -I{} sh -c 'python3 sa/check.py {} $SA_ARGS 2>&1 | tail -1 | cut -c1-160' | sort
