#!/bin/bash
# Builds the small program beside this file against /repo and runs it; exit 0: the property holds on it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=1.81.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/tmp/puck_demo_@ID@/target
export PATH=/opt/vp/lunatic/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p /tmp/puck_demo_@ID@ && cp "$here"/Cargo.toml "$here"/Cargo.lock "$here"/main.rs /tmp/puck_demo_@ID@/ && cd /tmp/puck_demo_@ID@ || exit 9
cargo build --offline --target wasm32-wasi > build.log 2>&1 || { cat build.log; rm -rf /tmp/puck_demo_@ID@; exit 9; }
if [ -f "$here/client.py" ]; then
  python3 "$here/client.py" /opt/vp/lunatic/bin/lunatic /tmp/puck_demo_@ID@/target/wasm32-wasi/debug/demo.wasm; rc=$?
else
  timeout 60 lunatic target/wasm32-wasi/debug/demo.wasm > out.log 2>&1
  grep -q '^DEMO HOLDS$' out.log; rc=$?
  [ $rc = 0 ] || tail -5 out.log
fi
rm -rf /tmp/puck_demo_@ID@
exit $rc
