#!/bin/bash
# builds every configuration once and runs the harness's selftest
set -e
cd "$(dirname "$0")"
./check.sh build r64 c64 r32 c32 asan
./check.sh selftest
./check.sh build c64m asanm
