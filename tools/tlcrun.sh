#!/bin/bash
# tlcrun.sh MODULE CFG [tlc args]: run TLC by hand
java -Xmx6g -Xss64m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers ${W:-8} -metadir /tmp/tlcmeta.$$ -config $2 "${@:3}" $1
rm -rf /tmp/tlcmeta.$$
