#!/bin/bash
# Nothing is kept between runs: the setup only shows that the harness builds and the tools are there.
set -e
cd "$(dirname "$0")/.."
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
bash lib/build.sh "$t/v.test"
test -s "$t/v.test"
java -version 2>/dev/null
mkdir -p evidence
echo setup done
