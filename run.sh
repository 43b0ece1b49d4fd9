#!/bin/bash
# usage: run.sh <ID> [--tier quick|thorough] [--replay file]   -- run from anywhere
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$D:$D/checks${PYTHONPATH:+:$PYTHONPATH}"
ID="$1"; shift
T="$(mktemp -d /tmp/verif.XXXXXX)"
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
f=$(ls "$D"/checks/"$(echo "$ID" | tr A-Z a-z)"_*.py | head -1)
/opt/venv/bin/python "$f" "$@"
exit $?
