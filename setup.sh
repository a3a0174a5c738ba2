#!/bin/bash
# Builds the simulator once; every check rebuilds what changed.
cd "$(dirname "$0")" || exit 1
for g in core ui gui; do
	python3 sim/build.py --group $g --flavour asan && python3 sim/build.py --group $g --flavour plain || exit 1
done
python3 sim/build.py --group layout --flavour plain
