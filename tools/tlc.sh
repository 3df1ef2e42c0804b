#!/bin/bash
# tlc.sh WORKERS MODULE CFG [more tlc options]   (runs in a fresh scratch directory for TLC's state files)
J=/opt/veriftools/tla; W=$1; M=$2; C=$3; shift 3
[ -f /verif/build/tlc2/module/Fx.class ] || (mkdir -p /verif/build && javac -cp $J/tla2tools.jar -d /verif/build /verif/java/tlc2/module/*.java)
D=$(mktemp -d); 
java -XX:+UseParallelGC ${JOPT:--Xmx3g} -DTLA-Library=/verif/spec:/verif/spec/models -cp /verif/build:$J/tla2tools.jar:$J/CommunityModules-deps.jar tlc2.TLC -metadir $D -workers $W -config $C "$@" $M 2>&1 | grep -v -E '^(Loading|Parsing file|Semantic processing|Linting)'
R=${PIPESTATUS[0]}; rm -rf "$D"; exit $R
