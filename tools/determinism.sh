#!/bin/bash
# tools/determinism.sh Cxx RUNS: the logs of the same seeds under another hash seed of the harness and another number of workers must be equal.
cd "$(dirname "$0")/.." || exit 2
T=$(mktemp -d)
/opt/venv/bin/python -W ignore run.py logs "$1" --runs "${2:-300}" --hashseed 0 --workers 8 > "$T/a" 2> "$T/ea"
/opt/venv/bin/python -W ignore run.py logs "$1" --runs "${2:-300}" --hashseed 77 --workers 3 > "$T/b" 2> "$T/eb"
cat "$T/ea"
cmp "$T/a" "$T/b" && echo "$1: $(wc -l < "$T/a") logs equal"
R=$?
rm -rf "$T"
exit $R
