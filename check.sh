#!/bin/bash
# Runs the check of a property: check.sh C01 [--replay FILE]   (VERIF_SEED and VERIF_TIER are honoured)
# check.sh setup just shows that whatami can be imported from the working tree: there is nothing to build
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
# whatami is always imported from the working tree of /repo, and nothing is written there
export PYTHONPATH="$here:${WHATAMI_REPO:-/repo}" PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1
cd "$here" || exit 2
if [ "$1" = setup ]; then
  exec "$PY" -W ignore -c 'import whatami, mon.core, mon.gen, mon.ref; print("whatami %s from %s" % (whatami.__version__, whatami.__file__))'
fi
# A generous watchdog: its firing is inconclusive, never a violation
exec timeout -k 5 880 "$PY" -W ignore -c 'import sys; from mon.core import main; sys.exit(main(["check"] + sys.argv[1:]))' "$@"
