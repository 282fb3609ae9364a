#!/bin/bash
# nothing to build ahead of time: each check bundles /repo's working tree itself; this verifies the toolchain and the committed files
cd "$(dirname "$0")" || exit 1
if [ -x /opt/node/node_modules/.bin/node ]; then export PATH=/opt/node/node_modules/.bin:$PATH; fi
node --version || exit 1
test -d /repo/packages/vgrammar-core/src || exit 1
node lib/bundle.js --selftest || exit 1
