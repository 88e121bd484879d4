#!/bin/sh
cd "$(dirname "$0")/../spec" && exec java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$@"
