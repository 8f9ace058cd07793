#!/bin/bash
# Build the MIR dumper, the reference crates and warm the dependency build.
set -e
cd "$(dirname "$0")"
./dump.sh >/dev/null
echo setup done
