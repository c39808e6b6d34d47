#!/bin/sh
# usage: ./run.sh C01 [quick|thorough] [--replay FILE] [--jobs N]
# Runs one check against the working tree of /repo (or $VMC_REPO).
here=$(cd "$(dirname "$0")" && pwd)
repo=${VMC_REPO:-/repo}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vmc.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
mkdir "$scratch/pyc" "$scratch/work"
PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8 \
LC_ALL=C.UTF-8 LANG=C.UTF-8 \
OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 \
VMC_REPO="$repo" VMC_SCRATCH="$scratch/work" PYTHONPATH="$repo:$here" \
/opt/pvenv/bin/python -W ignore -m vmc.core "$@"
