#!/bin/bash
# usage: ./run.sh <property> [--replay <file>]     (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" || exit 2
if [ -x /opt/node/node_modules/.bin/node ]; then export PATH=/opt/node/node_modules/.bin:$PATH; fi
export TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8
exec node lib/run.js "$@"
