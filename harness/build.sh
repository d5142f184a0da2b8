#!/bin/bash
# builds the witness searcher and the luafmt program from /repo's current working tree (hook on)
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/.build/harness CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg luafmt_verif"
mkdir -p "$CARGO_TARGET_DIR"
# cargo goes by file times; a change that keeps them (a checkout, a copy) is told by the contents
h=$(cd /repo && find src build.rs Cargo.toml -type f ! -name lua_syntax.rs ! -name comment_syntax.rs -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$h" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    for f in "$CARGO_TARGET_DIR"/debug/.fingerprint/luafmt-*; do [ -d "$f" ] && rm -rf "$f"; done
    rm -f "$CARGO_TARGET_DIR/repo.sum"
fi
cd /verif/harness && cargo build --offline "$@" && cargo build --offline --manifest-path /repo/Cargo.toml --bin luafmt && echo "$h" > "$CARGO_TARGET_DIR/repo.sum"
