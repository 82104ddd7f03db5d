#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds from /repo's working tree and decides one property.
cd "$(dirname "$0")/.." || exit 2
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $TIER in thorough) SECS=${QLCDST_SECS:-600} ;; *) SECS=${QLCDST_SECS:-45} ;; esac
js() { exec node jssim/check.js run "$P" --seed "$SEED" --secs "$SECS" --tier "$TIER"; }
case $P in C16|C17|C18) js ;; esac
bash tools/build.sh >/tmp/qlc-build.$$.log 2>&1 || { cat /tmp/qlc-build.$$.log; rm -f /tmp/qlc-build.$$.log; echo "$P: building failed"; exit 2; }
rm -f /tmp/qlc-build.$$.log
[ "$P" = C25 ] && js
exec .build/driver-target/release/qlcdst run "$P" --seed "$SEED" --secs "$SECS" --tier "$TIER"
