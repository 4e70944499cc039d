#!/bin/bash
# run.sh build                      build the explorer against /repo's working tree
# run.sh check <ID> [quick|thorough]   decide a property
# run.sh replay <file>              rerun the case recorded in a violation file
# run.sh mc <args>                  run the explorer directly
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER 2>/dev/null
mkdir -p "$CARGO_TARGET_DIR" "$here/out" "$here/evidence"

build() {
    # Cargo decides by modification times whether the crates of /repo are up to
    # date; a copied or checked-out tree can be older than the last build, so the
    # contents decide here.
    local sum
    sum=$( (cd /repo && find . \( -name .git -o -name target \) -prune -o -type f \
                \( -name '*.rs' -o -name '*.toml' -o -name '*.data' -o -name Cargo.lock \) -print0 \
                | sort -z | xargs -0 sha256sum
            cd "$here/harness" && find src gen Cargo.toml Cargo.lock build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum
           ) | sha256sum | cut -d' ' -f1)
    local stamp="$CARGO_TARGET_DIR/source.sum"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ] || [ ! -x "$CARGO_TARGET_DIR/release/mc" ]; then
        rm -f "$stamp"
        for p in calcu-rs calcu_rs calcurs_macros mc; do
            find "$CARGO_TARGET_DIR/release/.fingerprint" "$CARGO_TARGET_DIR/hooks/release/.fingerprint" -maxdepth 1 -name "$p-*" -exec rm -rf {} + 2>/dev/null
        done
        cargo build --release --offline --quiet --bin mc >"$here/out/build.log" 2>&1 || {
            tail -40 "$here/out/build.log" >&2
            echo "run.sh: the explorer does not build" >&2
            return 2
        }
        echo "$sum" >"$stamp"
    fi
}

exec 9>"$CARGO_TARGET_DIR/lock"
flock 9
build || exit 2
flock -u 9
exec 9>&-
case "${1:-}" in
    build) exit 0 ;;
    check)
        cd "$here" || exit 2
        exec "$CARGO_TARGET_DIR/release/mc" check "$2" "${3:-${VERIF_TIER:-quick}}"
        ;;
    replay) exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
    mc) shift; exec "$CARGO_TARGET_DIR/release/mc" "$@" ;;
    *) echo "usage: run.sh build | check <ID> [tier] | replay <file>" >&2; exit 2 ;;
esac
