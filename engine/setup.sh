#!/bin/bash
# nothing to install: check that the tools are there
set -e
command -v goto-cc goto-instrument cbmc gcc coqc python3 >/dev/null
mkdir -p "$(dirname "$0")/../evidence"
echo ready
