#!/bin/bash
# Builds the C++ modules of /repo once, so that the checks only rebuild what has changed,
# and checks that the generator library is there.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
bash /opt/vp/build_solibs.sh || exit 1
python3-vt -c 'import hypothesis; print("hypothesis", hypothesis.__version__)' || exit 1
mkdir -p evidence
