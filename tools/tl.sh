#!/bin/bash
# tl.sh MODULE [CFG] : TLC's own messages about a specification
d=$(mktemp -d /tmp/tlXXXX); cp /verif/spec/* "$d"; cd "$d" || exit 1
timeout ${T:-120} tlc -workers 4 -deadlock -noGenerateSpecTE -config "${2:-$1}.cfg" "$1.tla" 2>&1 | grep -v "^Parsing\|^Semantic\|^\"[{\[]" | tail -${N:-25} | cut -c1-220
rm -rf "$d"
