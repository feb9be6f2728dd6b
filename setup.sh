#!/bin/sh
# Builds the MIR dump driver; every check does the same when it is missing.
cd "$(dirname "$0")" && python3 -c "
from nrbfcheck import build
with build.lock(): build.driver()
"
