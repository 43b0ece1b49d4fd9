#!/bin/bash
# nothing to build: check that the interpreter, z3 and the real package can be imported together
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
cd /tmp && PYTHONPATH="$D" /opt/venv/bin/python -c "import symx; import thetis; print('z3', symx.z3.get_version_string(), 'thetis', thetis.__file__)"
