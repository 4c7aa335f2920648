#!/bin/bash
# Builds simrt, the two guests (the real command, and the library guest) from /repo's current
# working tree, and the orchestrator. Everything goes to /verif/build.
set -u
cd "$(dirname "$0")" || exit 3
V=$PWD
B=$V/build
REPO=${SEIREN_REPO:-/repo}
mkdir -p "$B" "$V/evidence" "$V/replays"
exec 9>"$B/lock"
flock 9
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
fail() { echo "build: $*" >&2; tail -40 "$B/build.log" >&2; exit 3; }
: > "$B/build.log"

# -- simulated operating system
st=$(cat simrt/* | sha256sum | cut -d' ' -f1)
if [ "$(cat "$B/simrt.stamp" 2>/dev/null)" != "$st" ] || [ ! -e "$B/simrt-all.o" ]; then
    gcc -O2 -Wall -Wextra -fPIC -c simrt/simrt.c -o "$B/simrt.o" >>"$B/build.log" 2>&1 || fail "simrt"
    gcc -O2 -w -fno-builtin -c simrt/deny.c -o "$B/deny.o" >>"$B/build.log" 2>&1 || fail "deny"
    ld -r "$B/simrt.o" "$B/deny.o" -o "$B/simrt-all.o" >>"$B/build.log" 2>&1 || fail "simrt link"
    rm -f "$B/guest.stamp"
    echo "$st" > "$B/simrt.stamp"
fi

# -- orchestrator (does not link the code under test)
( cd dst && cargo build --release --offline --target-dir "$B/dst" ) >>"$B/build.log" 2>&1 || fail "orchestrator"

# -- guests: everything they contain is instrumented and rebuilt when the working tree changes
GF="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard"
GF="$GF -C passes=function(tsan) -C llvm-args=-tsan-instrument-func-entry-exit=0"
GF="$GF -C relocation-model=static -C link-arg=$B/simrt-all.o -C link-arg=-Wl,--export-dynamic"
gst=$( { cd "$REPO" && find Cargo.toml Cargo.lock build.rs src .cargo rust-toolchain* -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; \
         cd "$V" && sha256sum guest/src/*.rs build.sh simrt/*; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$B/guest.stamp" 2>/dev/null)" != "$gst" ] || [ ! -x "$B/seiren" ] || [ ! -x "$B/guest-bin" ] || [ ! -x "$B/seiren-plain" ]; then
    rm -f "$B/guest.stamp" "$B/seiren" "$B/guest-bin" "$B/seiren-plain"
    # One crate builds both: the command from the repository's own main.rs, and the library guest.
    # Its dependencies are the repository's; nothing is written to the repository.
    G=$B/guestcrate
    mkdir -p "$G"
    ed=$(sed -n 's/^edition *= *"\([0-9]*\)".*/\1/p' "$REPO/Cargo.toml" | head -1)
    {
        printf '[package]\nname = "guests"\nversion = "0.1.0"\nedition = "%s"\n\n[workspace]\n\n' "${ed:-2021}"
        printf '[[bin]]\nname = "guest"\npath = "%s/guest/src/main.rs"\n\n' "$V"
        main=$REPO/src/main.rs
        [ -e "$main" ] || main=$(ls "$REPO"/src/bin/seiren.rs "$REPO"/src/bin/seiren/main.rs "$REPO"/src/bin/*.rs 2>/dev/null | head -1)
        printf '[[bin]]\nname = "seiren"\npath = "%s"\n\n' "$main"
        awk '/^\[/ { on = ($0 ~ /^\[dependencies/) } on' "$REPO/Cargo.toml"
        printf '\n[dependencies.seiren]\npath = "%s"\n\n' "$REPO"
        printf '[profile.release]\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\npanic = "unwind"\n\n'
        printf '[profile.dev]\nopt-level = 0\ndebug = false\ndebug-assertions = true\noverflow-checks = true\npanic = "unwind"\n'
    } > "$G/Cargo.toml.new"
    cmp -s "$G/Cargo.toml.new" "$G/Cargo.toml" || cp "$G/Cargo.toml.new" "$G/Cargo.toml"
    [ -e "$G/Cargo.lock" ] || cp "$V/guest/Cargo.lock" "$G/Cargo.lock"
    # the command once more, without optimisation, as "cargo build" makes it
    (
        export RUSTFLAGS="$GF" CONST_RANDOM_SEED=seiren
        T="--target x86_64-unknown-linux-gnu --manifest-path $G/Cargo.toml --target-dir $B/t-plain"
        cargo clean --offline -p seiren -p guests $T
        cargo build --offline --bin seiren $T
    ) >"$B/build-plain.log" 2>&1 &
    plain=$!
    (
        export RUSTFLAGS="$GF" CONST_RANDOM_SEED=seiren
        T="--release --target x86_64-unknown-linux-gnu --manifest-path $G/Cargo.toml --target-dir $B/t-guest"
        cargo clean --offline -p seiren -p guests $T
        cargo build --offline $T
    ) >>"$B/build.log" 2>&1 || fail "guests"
    O=$B/t-guest/x86_64-unknown-linux-gnu/release
    wait $plain || { cat "$B/build-plain.log" >>"$B/build.log"; fail "guest without optimisation"; }
    cp "$B/t-plain/x86_64-unknown-linux-gnu/debug/seiren" "$B/seiren-plain" || fail "copy"
    cp "$O/seiren" "$B/seiren" && cp "$O/guest" "$B/guest-bin" || fail "copy"
    echo "$gst" > "$B/guest.stamp"
fi
exit 0
