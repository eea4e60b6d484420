#!/bin/bash
# Development aid: run a check in survey mode and count distinct failure signatures.
VH_ALL=${VH_ALL:-1} VH_NOSHRINK=1 VH_SCALE=${2:-0.2} /verif/.build/debug/vh check $1 > /tmp/sigs.$1.txt 2>&1
grep -a -E "^FOUND" /tmp/sigs.$1.txt | sed 's/case=[0-9]*//' | sort | uniq -c | sort -rn | head -40
grep -a "lane .* cases" /tmp/sigs.$1.txt
