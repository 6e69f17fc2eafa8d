#!/bin/bash
# Offline set-up: builds the extensions from /repo and checks the tools.
. /opt/vp/env.sh
mkdir -p /repo/build/vp "$MPLCONFIGDIR"
( cd /repo && python /opt/vp/buildext.py ) > /dev/null 2>&1 || { echo "building the extensions failed"; exit 1; }
cd "$(dirname "$0")" || exit 1
python -W ignore -c "
import sys; sys.path.insert(0, 'lib')
import boot, vh, gen, hypothesis, numpy, scipy
print('ready: hypothesis', hypothesis.__version__)"
