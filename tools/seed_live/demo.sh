#!/bin/bash
# Builds the small live application beside this file against /repo and shows it in the browser beside this
# file; exit 0: the property holds on it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=1.81.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/tmp/puck_demo_@ID@/target
export PATH=/opt/vp/lunatic/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
mkdir -p /tmp/puck_demo_@ID@ && cp -r "$here"/app /tmp/puck_demo_@ID@/ && cd /tmp/puck_demo_@ID@/app || exit 9
cargo build --offline --target wasm32-wasi > build.log 2>&1 || { tail -30 build.log; rm -rf /tmp/puck_demo_@ID@; exit 9; }
timeout 120 python3 "$here/client.py" /opt/vp/lunatic/bin/lunatic /tmp/puck_demo_@ID@/target/wasm32-wasi/debug/verifliveview.wasm "$here/browser.js"; rc=$?
rm -rf /tmp/puck_demo_@ID@
exit $rc
