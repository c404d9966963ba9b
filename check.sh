#!/bin/bash
# check.sh <PROPERTY> : build from /repo's current tree and run one check.
# check.sh replay <FILE> : run a replay file.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=$PWD/target
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}

src_hash() { (cd "/repo/$1" && find src Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1); }

build() { # crate harness
    VERIF_SRC_HASH=$(src_hash "$1") || return 1
    export VERIF_SRC_HASH
    (cd "harness/$2" && cargo build --release --offline --locked -q 2>"$CARGO_TARGET_DIR/build-$2.log") || {
        echo "build of /repo/$1 failed:" >&2
        grep -A8 '^error' "$CARGO_TARGET_DIR/build-$2.log" | head -40 >&2
        return 1
    }
}

which_harness() {
    case $1 in
        C0[1-9]|C10) echo "proof_of_space space" ;;
        C23) echo "python" ;;
        C1[1-9]|C2[0-2]) echo "proof_of_storage storage" ;;
        *) return 1 ;;
    esac
}

mkdir -p "$CARGO_TARGET_DIR"
if [ "$1" = build ]; then
    build proof_of_space space && build proof_of_storage storage
    exit $?
fi
mode=run id=$1 arg=$1
if [ "$1" = replay ]; then
    arg=$(realpath "$2") || exit 2
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$arg") || exit 2
    mode=replay
fi
h=$(which_harness "$id") || { echo "unknown property $id" >&2; exit 2; }
if [ "$h" = python ]; then
    exec python3-vt harness/scripts/check_scripts.py $mode "$arg"
fi
set -- $h
build "$1" "$2" || exit 2
# runaway allocation ends the case that causes it, not the machine
ulimit -v 24000000
# never wait forever: a wall-clock limit is an error, not a violation
exec timeout -k 10 "${VERIF_WALL:-$([ "$VERIF_TIER" = thorough ] && echo 21600 || echo 840)}" "$CARGO_TARGET_DIR/release/check_$2" $mode "$arg"
