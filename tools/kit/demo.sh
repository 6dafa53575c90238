#!/bin/bash
# Compiles /repo's library with its verification hook and the demonstration beside this file, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
deps=$PWD/target/debug/deps
out=/tmp/csig-demo-@ID@
rm -rf /tmp/csig-demo-@ID@
mkdir -p "$out" || exit 3
trap 'rm -rf /tmp/csig-demo-@ID@' EXIT
rlib() { ls -t "$deps"/lib"$1"-*.rlib | head -1; }
ext() { for c in "$@"; do printf -- '--extern %s=%s ' "$c" "$(rlib "$c")"; done; }
rustc --edition 2024 --cap-lints allow --cfg vp_hooks --crate-name cloud_storage_signature --crate-type rlib -L dependency="$deps" \
  $(ext base64 chrono form_urlencoded http pem reqwest ring serde serde_json sha256 thiserror tokio url) \
  --out-dir "$out" src/lib.rs || exit 3
rustc --edition 2024 --cap-lints allow --crate-name demo -L dependency="$deps" -L dependency="$out" \
  --extern cloud_storage_signature="$out/libcloud_storage_signature.rlib" $(ext base64 pem ring serde_json tokio url) \
  -o "$out/demo" "$here/demo.rs" || exit 3
cd "$out" && timeout 120 ./demo
