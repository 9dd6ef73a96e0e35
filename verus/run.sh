#!/bin/bash
# usage: run.sh template S(1|2) [verus args]
t=$1; s=$2; shift 2
case $s in 1) v="PT=u8 S=1 PMAX=255";; 2) v="PT=u16 S=2 PMAX=65535";; esac
E=${E:-/verif/target/extract/debug/extract}
mkdir -p /tmp/w
$E ${R:-/repo}/src /verif/verus/$t.rs.in /tmp/w/$t$s.rs $v || exit 3
cd /tmp/w; /usr/bin/time -f %es verus --triggers-mode silent "$@" $t$s.rs 2>&1
