#!/bin/bash
# builds what the checks build, once, to show that the framework is complete
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build"
T=$(mktemp -d "$V/build/setup.XXXXXX")
trap 'rm -r "$T"' EXIT
bash "$V/tools/build_driver.sh" "$T/bin"
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
echo ready
