#!/bin/bash
# Decide one property of /repo's working tree:
#   check.sh <id>                   run the check (VERIF_TIER, VERIF_SEED)
#   check.sh <id> --replay <file>   run the one case of a replay file
#   check.sh --build                only build everything
# Exit 0: the property held; 1: violated; 2: the check could not be made.
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${HMLVERIF_REPO:-/repo}
BUILD=$ROOT/.build
export HMLVERIF_ROOT=$ROOT
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p "$BUILD" || exit 2

# cargo_build <target folder> <arguments>: always compiles the sources as they are now
cargo_build() {
    local dir=$BUILD/$1
    shift
    mkdir -p "$dir"
    # the times of files may go backwards when a tree is restored
    find "$dir" -maxdepth 3 -path '*/.fingerprint/*' \( -name 'hml-rs-*' -o -name 'hml_rs-*' -o -name 'hmlverif-*' \) -exec rm -rf {} +
    if ! CARGO_TARGET_DIR=$dir cargo build --offline --locked -q "$@" >"$dir/log" 2>&1; then
        # a tree whose lock file is not there, or is out of date
        if ! CARGO_TARGET_DIR=$dir cargo build --offline -q "$@" >"$dir/log" 2>&1; then
            cat "$dir/log" >&2
            echo "check.sh: build failed" >&2
            exit 2
        fi
    fi
}
main() { cargo_build main --manifest-path "$ROOT/harness/Cargo.toml" --bin hmlverif; }
hook() { RUSTFLAGS="--cfg hml_verif" cargo_build hook --manifest-path "$ROOT/harness/Cargo.toml" --bin hmlverif; }
cli() { cargo_build cli --manifest-path "$REPO/Cargo.toml" --bin hmlconvert; }
dumps() {
    export RUSTFLAGS="--cfg hml_verif"
    cargo_build dump-dev --manifest-path "$ROOT/harness/Cargo.toml" --no-default-features --bin hmldump
    cargo_build dump-xml --manifest-path "$ROOT/harness/Cargo.toml" --bin hmldump
    cargo_build dump-plain --manifest-path "$ROOT/harness/Cargo.toml" --no-default-features --bin hmldump --profile plain
    cargo_build dump-opt --manifest-path "$ROOT/harness/Cargo.toml" --no-default-features --bin hmldump --profile opt
    unset RUSTFLAGS
}

exec 9>"$BUILD/lock"
flock 9
case "$1" in
--build)
    main
    hook
    cli
    dumps
    exit 0
    ;;
C[0-9]*) ;;
*)
    echo "usage: check.sh <id> [--replay <file>]" >&2
    exit 2
    ;;
esac
BIN=$BUILD/main/debug/hmlverif
case "$1" in
C18)
    hook
    BIN=$BUILD/hook/debug/hmlverif
    ;;
C21 | C32)
    main
    cli
    export HMLVERIF_CLI=$BUILD/cli/debug/hmlconvert
    ;;
C28)
    main
    dumps
    export HMLVERIF_DUMPS=$BUILD/dump-dev/debug/hmldump:$BUILD/dump-xml/debug/hmldump:$BUILD/dump-plain/plain/hmldump:$BUILD/dump-opt/opt/hmldump
    ;;
*) main ;;
esac
# a copy, so that another check may build while this one runs
RUN=$(mktemp -d "${TMPDIR:-/tmp}/hmlverif-bin.XXXXXX") || exit 2
trap 'rm -rf -- "${RUN:?}"' EXIT
cp "$BIN" "$RUN/hmlverif" || exit 2
if [ "$1" != C21 ] && [ "$1" != C32 ] && [ "$1" != C28 ]; then
    flock -u 9
fi
if [ "$2" = --replay ]; then
    "$RUN/hmlverif" replay "$1" "$3"
else
    "$RUN/hmlverif" check "$1"
fi
R=$?
case $R in
0 | 1) exit $R ;;
*) exit 2 ;;
esac
