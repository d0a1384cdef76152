#!/bin/bash
# m.sh PROP edit file...: mut.sh with terse output
echo "== $*"; LINES_OUT=2 "$(dirname "$0")/mut.sh" "$@" | grep -v "^ " | grep . | head -3
