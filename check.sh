#!/bin/bash
# check.sh build               build the simulator against /repo's working tree
# check.sh S01                 decide one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE         replay a violation exactly
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$V/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
build() {
    # both builds side by side: with assertions, and as shipped
    local a b log
    log=$(mktemp -d) || return 1
    (cd sim && cargo build --release --offline >"$log/a" 2>&1) & a=$!
    (cd sim && CARGO_TARGET_DIR="$V/sim/target/shipped-build" cargo build --profile shipped --offline >"$log/b" 2>&1) & b=$!
    wait $a; a=$?
    wait $b; b=$?
    if [ $a != 0 ] || [ $b != 0 ]; then
        grep -hE '^(error|warning: unused)' -A12 "$log/a" "$log/b" >&2
        echo "check.sh: the simulator does not build against this tree" >&2
        rm -rf "$log"
        return 1
    fi
    rm -rf "$log"
}
MAIN=$V/sim/target/release/sim
ALT=$V/sim/target/shipped-build/shipped/sim
case "${1:-}" in
build) build || exit 2 ;;
replay)
    build || exit 2
    if grep -q '^build shipped' "$2"; then exec "$ALT" replay "$2"; else exec "$MAIN" replay "$2"; fi ;;
S*)
    build || exit 2
    exec "$MAIN" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --verif "$V" --alt "$ALT" ;;
*) echo "usage: check.sh build | S01..S17 | replay FILE" >&2; exit 2 ;;
esac
