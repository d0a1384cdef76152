#!/bin/bash
# mt.sh: reads lines "PROP<TAB>perl-expr<TAB>file" on stdin, runs each mutation 3 at a time, terse output
run1() { IFS=$'\t' read -r p e f <<<"$1"; o=$(LINES_OUT=40 /verif/tools/mut.sh "$p" "$e" "$f" 2>&1); v=$(grep -E "^VIOLATION|^OK|EDIT HAD|cannot|error" <<<"$o" | head -2 | cut -c1-150 | tr '\n' '|'); w=$(grep -E "REQUIRE|runtime error|ERROR:|data race|SUMMARY|hang|deadlock" <<<"$o" | head -1 | cut -c1-200); printf '%s\n     %s\n     %s\n' "$1" "$v" "$w"; }
export -f run1
grep -v '^#' | tr '\n' '\0' | xargs -0 -P 3 -I{} bash -c 'run1 "$@"' _ {}
