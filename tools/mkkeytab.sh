#!/bin/sh
# regenerate spec/KeyStreams.tla (768 bytes of each stream) and spec/KeyLong.tla (4608 bytes) from spec/Aes.tla
cd "$(dirname "$0")/../spec" || exit 1
T=$(mktemp -d)
for m in KeyStreams:48 KeyLong:288; do
  MOD=${m%:*} N=${m#*:} OUT=$T/${m%:*}.tla java -Xss256m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir $T/m -config KeyTabGen.cfg KeyTabGen.tla >$T/log 2>&1 || tail $T/log
  mv $T/${m%:*}.tla ${m%:*}.tla
done
