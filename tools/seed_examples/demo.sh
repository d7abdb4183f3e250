#!/bin/bash
# Builds the example as it is in /repo, runs it and uses it; exit 0: the property holds in this case.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=1.81.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/tmp/puck_demo_@ID@/target
export PATH=/opt/vp/lunatic/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
mkdir -p /tmp/puck_demo_@ID@ && cp -r "$here"/examples "$here"/live /tmp/puck_demo_@ID@/ && cd /tmp/puck_demo_@ID@/examples || exit 9
{ cargo build --offline --target wasm32-wasi --bin @BIN@ && gcc -shared -fPIC -O1 -o bind.so "$here/bind.c" -ldl; } > build.log 2>&1 || { tail -30 build.log; rm -rf /tmp/puck_demo_@ID@; exit 9; }
timeout 120 python3 "$here/client.py" /opt/vp/lunatic/bin/lunatic /tmp/puck_demo_@ID@/target/wasm32-wasi/debug/@BIN@.wasm /tmp/puck_demo_@ID@/examples/bind.so "$here/browser.js"; rc=$?
rm -rf /tmp/puck_demo_@ID@
exit $rc
