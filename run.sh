#!/bin/bash
# run.sh PROPERTY [quick|thorough]: rebuild the harness against /repo's working tree, decide one property.
cd "$(dirname "$0")" || exit 2
root=$PWD
id=${1:?usage: run.sh PROPERTY TIER}
tier=${2:-${VERIF_TIER:-quick}}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
case $id in
C19|C20|C21|C22|C23|C24|C25) exec bash "$root/pangram/run.sh" "$id" "$tier" ;;
esac
export CARGO_TARGET_DIR=$root/harness/target
mkdir -p "$CARGO_TARGET_DIR"
# Cargo compares modification times; compare contents instead, in case a restored file looks old.
sum=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    cargo clean -q --offline --release --manifest-path harness/Cargo.toml -p parse-proof-of-concept 2>/dev/null
    echo "$sum" > "$CARGO_TARGET_DIR/repo.sum"
fi
if ! cargo build -q --release --offline --manifest-path harness/Cargo.toml 2> "$CARGO_TARGET_DIR/build.log"; then
    cat "$CARGO_TARGET_DIR/build.log" >&2
    echo "run.sh: the harness does not build against /repo" >&2
    exit 2
fi
# A runaway case ends its process, which is then reported.
ulimit -v 25165824
exec harness/target/release/vharness --prop "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --out "$root" --known "$root/known_findings.txt"
