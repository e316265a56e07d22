#!/bin/bash
# Run in /repo, after the build. Exits with 0 iff the behaviour is as it should be.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -w -include algorithm -include cstring -Isrc -I"$D" -I/usr/include/poppler \
  "$D/demo.cpp" EXTRA $(find build/src -name '*.o' ! -name 'pdftotext++.o') \
  -lpoppler -lutf8proc -lboost_program_options -o "$T/demo" || { echo "cannot build the demo"; exit 3; }
cd "$T" && timeout 60 ./demo
