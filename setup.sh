#!/bin/bash
# Checks that the tools are there and warms the build cache of the harness; every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
python3 -c 'import sys; sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import vlib
c = vlib.Ctx("setup", "quick", 1)
c.build("./store")
c.cleanup()'
echo ready
