#!/bin/sh
# build.sh [FEATURE]: builds the simulator in both profiles against /repo's working tree.  Prints the directory with
# the binaries.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
hash=$( { find /repo -path /repo/.git -prune -o -type d -name target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 \
  | LC_ALL=C sort -z | xargs -0 sha256sum; find "$here/sim" -path "$here/sim/target" -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; rustc --version; } | sha256sum | cut -c1-16)
top=$here/sim/target/$hash
dir=$top/${1:-plain}
mkdir -p "$dir"
# keep the space bounded: forget the builds of other trees
for d in "$here"/sim/target/*; do
  case $d in "$top") ;; *) [ -d "$d" ] && rm -rf "$d" ;; esac
done
cd "$here/sim"
export RUSTC_BOOTSTRAP=enum_vec_sim,sim_core CARGO_TARGET_DIR=$dir CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS 2>/dev/null || true
cargo build --offline --locked --release --features "${1:-}" >"$dir/release.log" 2>&1 &
a=$!
cargo build --offline --locked --profile checked --features "${1:-}" >"$dir/checked.log" 2>&1 &
b=$!
ok=0
wait $a || ok=1
wait $b || ok=1
if [ $ok != 0 ]; then
  cat "$dir/release.log" "$dir/checked.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$dir"
