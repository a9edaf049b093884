#!/bin/bash
# Demonstration: runs demo.rs (beside this file) as an extra e2e test of the
# repository in the current directory; the two files it touches are restored.
here=$(cd "$(dirname "$0")" && pwd)
lib=e2e/src/lib.rs
mod=e2e/src/vp_demo.rs
bak=$(mktemp)
cp -p "$lib" "$bak" || exit 2
restore() { cp -p "$bak" "$lib"; rm -f "$bak" "$mod"; }
trap restore EXIT
trap 'exit 2' INT TERM
cp "$here/demo.rs" "$mod"
printf '\n#[cfg(test)]\nmod vp_demo;\n' >> "$lib"
touch "$lib"
export HOME=/root RUSTUP_TOOLCHAIN=1.97.1 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true \
  CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= INSTA_UPDATE=no
cargo nextest run --workspace --features hive-router/graphiql --locked --offline \
  --retries 0 -E 'package(e2e) & test(vp_demo)'
rc=$?
[ $rc -eq 0 ] || exit 1
