#!/bin/bash
# dev helper: vrun.sh [extract args] -- verus args
X=${V:-/verif}/build/extract/release/extract; D=${V:-/verif}/build/dev; mkdir -p $D
ea=(); while [ $# -gt 0 ] && [ "$1" != "--" ]; do ea+=("$1"); shift; done; shift
$X ${S:-/repo/src} ${V:-/verif}/contracts $D/out.rs $D/meta.json "${ea[@]}" && cd $D && verus out.rs "$@" > $D/log 2>&1; grep -vE '^( +\[\.\.\. om|$|thread|  +[0-9]+:|note: (Some|run)|stack back|Internal)' $D/log | head -${LINES_MAX:-70}
