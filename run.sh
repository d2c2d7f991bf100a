#!/bin/bash
# run.sh setup | check ID [quick|thorough] | replay FILE | list
#
# Builds the harness and the tic binaries from /repo's current working tree,
# then runs one check. Build output goes to harness/target and target/ only.
set -u
cd "$(dirname "$0")" || exit 3
VERIF=$(pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} RUST_BACKTRACE=0
export TICV_VERIF=$VERIF TICV_BIN=$VERIF/target/release
mkdir -p evidence work

build() {
    # Layers of copied trees can carry odd timestamps: rebuild by content.
    local hash stamp=harness/target/.repo-hash
    hash=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.tic' -o -name '*.lock' \) -print0 |
        sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
        rm -f "$VERIF/$stamp"
        (cd harness && cargo clean --release --offline -q -p ticc -p ticc-core -p ticc-eval -p ticc-syntax -p formatter 2>/dev/null)
        (cd /repo && cargo clean --release --offline -q --target-dir "$VERIF/target" -p ticc -p ticc-core -p ticc-eval -p ticc-syntax -p formatter -p ticc-lsp 2>/dev/null)
    fi
    local log=work/build.log
    (cd harness && cargo build --release --offline -q) >"$log" 2>&1 || { tail -40 "$log"; echo "ERROR harness does not build"; return 1; }
    (cd /repo && CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
        cargo build --release --offline -q --locked --target-dir "$VERIF/target" --bin ticc --bin ticc-lsp) >"$log" 2>&1 || { tail -40 "$log"; echo "ERROR tic does not build"; return 1; }
    mkdir -p harness/target && echo "$hash" > "$stamp"
}

case "${1:-}" in
    setup) build || exit 3 ;;
    check)
        build || exit 3
        ulimit -v 12000000
        exec harness/target/release/ticv "$@" ;;
    replay|one|list) build || exit 3; exec harness/target/release/ticv "$@" ;;
    *) echo "usage: run.sh setup | check ID [quick|thorough] | replay FILE | list"; exit 2 ;;
esac
