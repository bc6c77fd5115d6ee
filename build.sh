#!/bin/bash
# build.sh [harness] [cli]: rebuild from /repo's working tree, offline, with all output under /verif.
cd "$(dirname "$0")" || exit 3
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
# cargo trusts modification times; a tree of another content but older files must be rebuilt as well
content=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
fresh() {
    if [ -d "$1" ] && [ "$(cat "$1/repo-content" 2>/dev/null)" != "$content" ]; then
        find "$1" -maxdepth 4 \( -path '*/.fingerprint/dir-signature-*' -o -path '*/.fingerprint/vp-*' \) -prune -exec rm -rf {} +
    fi
}
mark() { echo "$content" > "$1/repo-content"; }
one() {
    local log; log=$(mktemp)
    if ! cargo build --release --offline "$@" >"$log" 2>&1; then
        grep -E '^error' -A12 "$log" | head -60; rm -f "$log"
        echo "ERROR: does not build against /repo: $*"
        exit 3
    fi
    rm -f "$log"
}
for what in "$@"; do
    case $what in
    harness)
        fresh harness/target
        one --manifest-path harness/Cargo.toml --target-dir harness/target
        mark harness/target ;;
    cli)
        mkdir -p target-cli/bin
        fresh target-cli
        one --manifest-path cli/Cargo.toml --target-dir target-cli --features threads
        cp target-cli/release/index target-cli/bin/index-threads
        one --manifest-path cli/Cargo.toml --target-dir target-cli
        cp target-cli/release/index target-cli/bin/index-plain
        mark target-cli ;;
    esac
done
