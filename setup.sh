#!/bin/sh
# The framework needs no installation: check that the tools are there and that the specification parses.
set -e
cd "$(dirname "$0")"
command -v g++ clang++ java python3 >/dev/null
mkdir -p evidence work replay
python3 tools/gen_tables.py > work/Tables.new
cmp work/Tables.new spec/Tables.tla
cd spec
for m in TraceHash BufferImpl MCBlockStream GenHash TraceAppend MCAppend TraceDigest TraceLong GenDigest MCIntegral; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > ../work/sany.out || { cat ../work/sany.out; exit 1; }
done
echo setup ok
