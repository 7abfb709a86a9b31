#!/bin/bash
# ./run.sh <property id> [quick|thorough] [--replay FILE]
# Runs one check against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
SRC=${VERIF_REPO:-/repo}
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX") || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
env -i PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin \
    HOME="$SCRATCH" LANG=C.UTF-8 LC_ALL=C.UTF-8 USER=verif LOGNAME=verif TERM=dumb TZ=UTC \
    VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_JOBS="${VERIF_JOBS:-}" \
    VERIF_SRC="$SRC" VERIF_SCRATCH="$SCRATCH" \
    PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$SCRATCH/pycache" PYTHONNOUSERSITE=1 \
    /opt/venv/bin/python -B -W ignore "$PWD/check.py" "$@"
exit $?
