#!/bin/bash
# run.sh C19|...|C25 TIER [--replay FILE]: decides one property of the grammar tool and its generated parser.
cd "$(dirname "$0")" || exit 2
root=$(dirname "$PWD")
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/rs/target PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
mkdir -p "$CARGO_TARGET_DIR"
# Cargo compares modification times; compare contents instead, in case a restored file looks old.
sum=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    cargo clean -q --offline --release --manifest-path rs/Cargo.toml -p parse-proof-of-concept -p pangram-diff 2>/dev/null
    echo "$sum" > "$CARGO_TARGET_DIR/repo.sum"
fi
if ! cargo build -q --release --offline --manifest-path rs/Cargo.toml 2> "$CARGO_TARGET_DIR/build.log"; then
    cat "$CARGO_TARGET_DIR/build.log" >&2
    echo "run.sh: the generated parser does not build" >&2
    exit 2
fi
if [ "$1" = C24 ] && ! cargo build -q --release --offline --manifest-path docs/Cargo.toml 2> "$CARGO_TARGET_DIR/build.log"; then
    cat "$CARGO_TARGET_DIR/build.log" >&2
    echo "run.sh: the documentation reader does not build" >&2
    exit 2
fi
ulimit -v 16777216
exec python3 check.py "$1" "$2" "${VERIF_SEED:-1}" "$root" "$CARGO_TARGET_DIR/release/pangram-diff" "${@:3}"
