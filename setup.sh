#!/bin/bash
# Builds every harness once so that the checks start quickly.
cd "$(dirname "$0")" || exit 1
while read -r id name flags; do
	[ -z "$id" ] && continue
	echo "$name $flags"
done < harness/INDEX | sort -u | while read -r name flags; do
	python3 tools/build.py $name $flags || exit 1
done
