#!/bin/bash
# Builds the simulator against /repo's current working tree, offline.
set -eu
cd "$(dirname "$0")/sim"
export CARGO_NET_OFFLINE=true
mkdir -p target
exec 9>target/.build-lock
flock 9
# cargo decides by time stamps whether a path dependency changed; decide by content
sum=$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.ur20-content 2>/dev/null || true)" != "$sum" ]; then
  rm -rf target/release/.fingerprint/ur20-*
fi
cargo build --release --offline --quiet
echo "$sum" > target/.ur20-content
