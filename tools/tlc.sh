#!/bin/bash
# tlc.sh MODULE [seconds] [cfg]: model check a module of /verif/spec in a scratch copy
rm -rf /tmp/sp; mkdir -p /tmp/sp; cp /verif/spec/* /tmp/sp; cd /tmp/sp
timeout ${2:-120} java -XX:+UseParallelGC -Xmx6g -Xss64m -cp "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/*" tlc2.TLC -workers 8 -config ${3:-$1.cfg} -deadlock $1.tla | grep -v -e '^Linting' -e '^Semantic' -e '^Parsing'  | tail -${4:-15}
