#!/bin/bash
# runs TLC with the Java evaluators of this directory; arguments as for TLC
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
exec java -XX:+UseSerialGC -Xss512m ${TLC_MEM:--Xmx3g} -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Try -cp ${CLASSES:-/verif/.build/classes}:.:$J tlc2.TLC -noGenerateSpecTE "$@" 2>&1
