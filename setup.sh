#!/bin/bash
# build the rustc driver and make sure the typed program of /repo can be extracted
set -e
cd "$(dirname "$0")"
mkdir -p .work evidence
bash engine/extract.sh /repo "$PWD/.work/setup.json"
rm -f .work/setup.json
