#!/bin/bash
# Builds what the checks need from /repo's current working tree, into /verif/.build (ignored by git).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${QLC_REPO:-/repo}
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
export CARGO_NET_OFFLINE=true
# Simulated operating system (preloaded into the compiler under test).
simsum=$(sha256sum < "$V/simlib/qlcsim.c")
if [ ! -e "$B/libqlcsim.so" ] || [ "$(cat "$B/sim.sum" 2>/dev/null)" != "$simsum" ]; then
  gcc -O2 -g -fPIC -shared -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-delete-null-pointer-checks \
    -Wall -Wno-nonnull-compare -Wno-stringop-truncation -Wno-format-truncation -Wno-discarded-qualifiers \
    -o "$B/libqlcsim.so.tmp" "$V/simlib/qlcsim.c" -ldl -lpthread
  mv "$B/libqlcsim.so.tmp" "$B/libqlcsim.so"
  echo "$simsum" > "$B/sim.sum"
fi
# Stand-ins for the programs of the release jobs.
relsum=$(cat "$V/simlib/relgate.c" "$V/simlib/reltool.c" | sha256sum)
if [ ! -e "$B/reltool" ] || [ "$(cat "$B/rel.sum" 2>/dev/null)" != "$relsum" ]; then
  gcc -O1 -Wall -fPIC -shared -o "$B/relgate.so" "$V/simlib/relgate.c" -ldl
  gcc -O1 -Wall -o "$B/reltool" "$V/simlib/reltool.c"
  echo "$relsum" > "$B/rel.sum"
fi
# Cargo judges by modification times; where contents changed, let it forget what it built.
forget() { # name directory package paths...
  local stamp=$B/$1.sum dir=$2 pkg=$3 now; shift 3
  now=$(find "$@" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    find "$dir" -type d -path '*/.fingerprint/*' -name "$pkg-*" -exec rm -rf {} + 2>/dev/null || true
    echo "$now" > "$stamp"
  fi
}
forget driver "$B/driver-target" qlcdst "$V/driver/src" "$V/driver/Cargo.toml" "$V/driver/Cargo.lock"
forget qlc "$B/qlc-target" qlc "$REPO/src" "$REPO/Cargo.toml" "$REPO/Cargo.lock"
# Driver.
(cd "$V/driver" && cargo build -q --locked --offline --release --target-dir "$B/driver-target")
# The compiler under test, with its atomic operations turned into scheduling points.
(cd "$REPO" && \
  RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 \
  RUSTFLAGS="-Awarnings -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Clink-arg=-Wl,--unresolved-symbols=ignore-all" \
  cargo build -q --locked --offline --bin qlc --target x86_64-unknown-linux-gnu --target-dir "$B/qlc-target")
