#!/bin/bash
# check.sh <property>: build the monitors against /repo's working tree and run one check.
# Exit 0: held. Exit 1: violation (a VIOLATION line is printed). Anything else: undecided.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
log="$PWD/target/build.log"
mkdir -p "$PWD/target"
# memory is checked under the address sanitizer, where there is one
if [ "$1" = C31 ]; then
    host=x86_64-unknown-linux-gnu
    if (cd harness && CARGO_TARGET_DIR="$PWD/../target/asan" RUSTFLAGS="-Zsanitizer=address --cfg kv_asan" \
        cargo +nightly build --release --offline --target $host) >"$log" 2>&1; then
        export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:quarantine_size_mb=16
        exec target/asan/$host/release/kvmon check C31
    fi
fi
# work is measured without the library's own debug assertions
profile=release
[ "$1" = C05 ] && profile=lean
if ! (cd harness && cargo build --profile $profile --offline) >"$log" 2>&1; then
    grep -E '^error' -A 6 "$log" | head -40
    echo "UNDECIDED property=$1: the monitors do not build"
    exit 2
fi
[ "$1" = --build ] && exit 0
# builds of the library that are compared with the one the monitors run in
if [ "$1" = C38 ]; then
    peer() { # name, features, profile
        local d="$PWD/target/peers/$1" out="$3"
        [ "$out" = dev ] && out=debug
        mkdir -p "$d"
        rm -f "$d/kvpeer"
        (cd peer && CARGO_BUILD_JOBS=2 CARGO_TARGET_DIR="$d" cargo build --offline --profile "$3" --no-default-features --features "$2") \
            >"$d/build.log" 2>&1 && cp "$d/$out/kvpeer" "$d/kvpeer"
    }
    peer all encode,format,parse lean &
    peer dev encode,format,parse dev &
    peer none "" lean &
    for f in encode format parse encode,format encode,parse format,parse; do
        peer "$f" "$f" lean &
    done
    wait
    for p in all dev none encode format parse encode,format encode,parse format,parse; do
        if [ ! -x "target/peers/$p/kvpeer" ]; then
            grep -E '^error' -A 6 "target/peers/$p/build.log" | head -40
            echo "UNDECIDED property=$1: the build '$p' to compare with does not build"
            exit 2
        fi
    done
fi
exec target/$profile/kvmon check "$1"
