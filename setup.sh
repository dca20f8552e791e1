#!/bin/bash
# Checks that the specifications type check with the installed tools.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
for f in spec/*.qnt; do
  quint typecheck "$f" > /dev/null || { echo "typecheck failed: $f"; exit 1; }
done
exit 0
