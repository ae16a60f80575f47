#!/bin/bash
# tools/idioms/run.sh: which snippets are not executable symbolically, or differ from the real libraries
cd "$(dirname "$0")/../.."
d=$(mktemp -d); cp -a bin lib properties.jsonl $d/; mkdir $d/checks $d/evidence; cp checks/*.py tools/idioms/*.py $d/checks/; cp tools/idioms/*.py $d/checks/
cd $d && PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -W ignore lib/run_check.py XI quick
rm -rf "$d"
