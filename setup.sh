#!/bin/sh
# builds the clock and fault seams; everything else is Python
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.build" "$here/evidence"
for n in vclock vfs; do
  gcc -O2 -shared -fPIC -o "$here/.build/$n.so" "$here/native/$n.c" -ldl || exit 1
done
