#!/bin/bash
# Nothing needs installing; building the executor here only checks the toolchain (each check builds its own copy).
set -e
cd "$(dirname "$0")"
bash engine/build.sh
