#!/bin/bash
# tlc.sh MODULE CFG: development aid
d=$(mktemp -d /tmp/tlcdev.XXXX); cp ${SPECDIR:-/verif/spec}/*.tla $d; cp $2 $d/x.cfg; cd $d
java -XX:+UseParallelGC -Xmx12g -Xss64m -Djava.io.tmpdir=$d -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -config x.cfg -workers 8 -noGenerateSpecTE $1.tla
case $d in /tmp/tlcdev.*) rm -rf $d;; esac
