#!/bin/sh
# tlc.sh <workdir-for-metadata> args...
WORDS="${WORDS:-$(cd "$(dirname "$0")/../spec" && pwd)/words.json}"; export WORDS
exec java -XX:+UseParallelGC -Xss64m ${TLC_HEAP:--Xmx6g} -cp "$(dirname "$0")/../build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:QrlOverrides$Registry' tlc2.TLC "$@"
