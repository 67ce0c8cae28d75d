#!/bin/bash
# Nothing is built: checks run /repo's sources under Jython. Verifies the tools.
set -e
cd "$(dirname "$0")"
command -v java >/dev/null
test -e /usr/share/java/jython.jar
test -d "${VERIF_REPO:-/repo}/pyamf"
mkdir -p evidence
chmod +x check
echo ready
