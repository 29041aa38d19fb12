#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 re-run one recorded violation
# check.sh setup                         build only
# Exit: 0 held, 1 violated (VIOLATION line), 2 no verdict (e.g. does not build).
set -u
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset BPF_OUT_DIR SBF_OUT_DIR CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export VERIF_DIR
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
what=${1:?usage: check.sh <property> [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}

build() {
    # cargo trusts mtimes; the sources of the program decide here
    local stamp=$VERIF_DIR/mc/target/.sources sum log=$VERIF_DIR/mc/target/build.log
    mkdir -p "$VERIF_DIR/mc/target"
    sum=$(find /repo/Cargo.toml /repo/program -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
        rm -rf "$VERIF_DIR"/mc/target/debug/.fingerprint/solana-slashing-program-*
    fi
    if ! (cd "$VERIF_DIR/mc" && cargo build --offline) >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "cannot build the checks against /repo" >&2
        exit 2
    fi
    echo "$sum" >"$stamp"
}

# The client itself, for C16 - C26. Its dependencies are prebuilt in
# /repo/target; the features are those of that build, so nothing but the
# repository's own crates is compiled.
client() {
    local stamp=/repo/target/.mc-client sum log=$VERIF_DIR/mc/target/client.log
    gcc -shared -fPIC -O1 -o "$VERIF_DIR/mc/target/nofile.so" "$VERIF_DIR/cli/nofile.c" -ldl || exit 2
    sum=$(find /repo/Cargo.toml /repo/Cargo.lock /repo/program /repo/clients/cli -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" = "$sum" ] &&
        sha256sum --status -c "$stamp.bin" 2>/dev/null; then
        return
    fi
    rm -rf /repo/target/debug/.fingerprint/solana-slashing-{program,cli}-*
    if ! (cd /repo && env CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/repo/target \
        cargo build --workspace --features solana-slashing-program/test-sbf --offline --bin spl-slashing --examples) >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "cannot build the client" >&2
        exit 2
    fi
    sha256sum /repo/target/debug/spl-slashing >"$stamp.bin"
    echo "$sum" >"$stamp"
}

# A real bank with the program under check, to replay the stand-in's
# transactions on (conf/conformance.rs). It is a test of the program, built in a
# scratch copy of the workspace against the prebuilt dependencies.
bank() {
    local stamp=$VERIF_DIR/mc/target/.bank bin=$VERIF_DIR/mc/target/conformance sum log=$VERIF_DIR/mc/target/bank.log
    sum=$( (cat "$VERIF_DIR/conf/conformance.rs"; find /repo/Cargo.toml /repo/Cargo.lock /repo/program /repo/clients -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" = "$sum" ] && [ -x "$bin" ]; then
        return
    fi
    rm -f "$bin" "$stamp"
    local scratch
    scratch=$(mktemp -d /tmp/mcbank.XXXXXX) || return
    cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/program /repo/clients "$scratch/"
    rm -rf "$scratch/program/target" "$scratch/program/tests"
    mkdir "$scratch/program/tests"
    cp "$VERIF_DIR/conf/conformance.rs" "$scratch/program/tests/"
    (cd "$scratch" && env CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/repo/target \
        timeout 300 cargo test --workspace --features solana-slashing-program/test-sbf --offline \
        --test conformance --bins --no-run --message-format json) >"$log" 2>"$log.err"
    local built
    built=$(grep '"name":"conformance"' "$log" | grep -o '"executable":"[^"]*"' | tail -1 | cut -d'"' -f4)
    if [ -n "$built" ] && [ -x "$built" ]; then
        cp "$built" "$bin" && echo "$sum" >"$stamp"
        rm -f "$built"
    else
        echo "no bank to replay on (see $log.err)" >&2
    fi
    rm -rf "$scratch"
}

build
bank
case $what in
    C16 | C17 | C18 | C19 | C20 | C21 | C22 | C23 | C24 | C25 | C26 | setup) client ;;
    replay) case $(grep -o '"property": *"C[0-9]*"' "$2") in *C1[6-9]* | *C2*) client ;; esac ;;
esac
case $what in
    setup) exit 0 ;;
    replay) exec "$VERIF_DIR/mc/target/debug/mc" replay "$2" ;;
    *) exec "$VERIF_DIR/mc/target/debug/mc" "$what" --tier "$tier" ;;
esac
