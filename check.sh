#!/bin/bash
# check.sh ID [quick|thorough]   build from /repo's working tree, and check property ID
# check.sh replay FILE           replay a violation
# check.sh build                 only build
# Exit 0: the property held on everything explored; 1: violation; 2: the check could not run.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" VERIF_DIR="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"

# Do not rely on the times of files to see that the library has changed.
now="$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)"
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    (cd "$here/mc" && cargo clean --offline -q -p bvh_anim -p mc 2>/dev/null)
    echo "$now" >"$CARGO_TARGET_DIR/repo.sum"
fi

build() { # DIR LOG
    local dir="$1" log="$2"
    (cd "$dir" && cargo build --offline) >"$log" 2>&1
}

if ! build "$here/mc" "$CARGO_TARGET_DIR/mc.log"; then
    tail -40 "$CARGO_TARGET_DIR/mc.log"
    echo "the explorer does not build"
    exit 2
fi
mc="$CARGO_TARGET_DIR/debug/mc"

literals() { # TIER
    local dir="$CARGO_TARGET_DIR/literals-$1" log="$here/replays/C12-compile.log"
    "$mc" programs "$1" "$dir" "$here/mc" /repo || exit 2
    cp "$here/mc/Cargo.lock" "$dir/Cargo.lock"
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/literals-"$1"-*
    if ! build "$dir" "$log"; then
        grep -E -A8 '^error' "$log" | head -40
        if grep -q -- '--> src/programs.rs' "$log"; then
            echo "a literal does not compile"
            echo "VIOLATION property=C12 replay=$log"
            mkdir -p "$here/evidence"
            cat >"$here/evidence/C12.json" <<J
{"property": "C12", "tier": "$1", "seed": ${VERIF_SEED:-1}, "level": "model_checking",
 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 1, "distinct_nontrivial": 1,
  "rule": "every enumerated literal compiles", "exhaustive": false, "explanation": "a literal does not compile", "samples": ["see $log"]},
 "assumptions": [], "wall_s": 0.0, "violations": 1}
J
            exit 1
        fi
        exit 2
    fi
    rm -f "$log"
    bin="$CARGO_TARGET_DIR/debug/literals-$1"
}

case "$1" in
build)
    ;;
replay)
    case "$2" in
    *.log) cat "$2"; exit 1 ;;
    esac
    bin="$mc"
    if grep -q '"property": "C12"' "$2"; then
        if grep -q '"tier": "thorough"' "$2"; then literals thorough; else literals quick; fi
    fi
    exec "$bin" replay "$2"
    ;;
C12)
    literals "${2:-quick}"
    exec "$bin" check C12 "${2:-quick}"
    ;;
*)
    exec "$mc" check "$1" "${2:-quick}"
    ;;
esac
