#!/bin/bash
# check.sh ID          build the harness from /repo's working tree and run the check of property ID
# check.sh replay FILE run one recorded input again
# Tier and seed come from VERIF_TIER (quick, thorough) and VERIF_SEED.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
if [ "$1" = replay ]; then
    id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
    args=(replay "$2")
else
    id=$1
    args=(check "$1")
fi
build() {
    cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --bin "$bin" \
        --no-default-features --features "$1" --target-dir build/harness >build/"$bin".log 2>&1
}
mkdir -p build
case "$id" in
# C14 to C18 and C21 use more of the library's public parts than the others, which do without when these
# do not build
C1[4-8] | C21) bin=lrpcheck; build deep ;;
C*) bin=lrpcheck; build deep || build core ;;
W*) bin=wopcheck; build wopc ;;
*) echo "usage: check.sh ID | check.sh replay FILE" >&2; exit 2 ;;
esac
if [ $? != 0 ]; then
    cat build/"$bin".log >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
# the builder prints a line to stderr for every literal without an alias
[ "$bin" = wopcheck ] && exec build/harness/release/"$bin" "${args[@]}" 2>/dev/null
exec build/harness/release/"$bin" "${args[@]}"
