#!/bin/bash
# Nothing is compiled: parse every specification once so that a broken toolchain is noticed here.
cd "$(dirname "$0")/../spec" || exit 1
d=$(mktemp -d) && cp ./*.tla "$d"/ && cd "$d" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; exit 1; }
done
cd / && rm -rf "$d"
/opt/venv/bin/python -c "import sys; sys.path.insert(0,'/repo'); import stochopy; print('stochopy', stochopy.__file__)"
