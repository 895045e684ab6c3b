# sourced by check.sh: the builds, each into its own folder below target/
# Where sources changed without a change of their time stamps cargo would not notice: compare
# their content, and have cargo forget what it built of them.
fresh() { # target-dir manifest-dir cargo-args...
    local td="$1" md="$2" sum
    shift 2
    mkdir -p "$td"
    sum=$(cd / && find repo/Cargo.toml repo/crates "$VERIF_ROOT/harness" "$VERIF_ROOT/realkdf" "$VERIF_ROOT/mirix" "$VERIF_ROOT/kdfshim" \
        -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.txt' -o -name '*.md' \) -not -path '*/target/*' -print0 2>/dev/null |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ -f "$td/sources.sum" ] && [ "$(cat "$td/sources.sum")" != "$sum" ]; then
        (cd "$md" && cargo "$@" clean --offline $([ -d "$td/x86_64-unknown-linux-gnu" ] && echo --release --target x86_64-unknown-linux-gnu) --target-dir "$td" -p volaris-crypto -p volaris-tools >/dev/null 2>&1)
        find "$td" -path '*/.fingerprint/vharness*' -name 'dep-*' -exec touch -d '2001-01-01' {} + 2>/dev/null
        find "$td" -path '*/.fingerprint/realkdf*' -name 'dep-*' -exec touch -d '2001-01-01' {} + 2>/dev/null
    fi
    echo "$sum" >"$td/sources.sum"
}

run() { # log command...: quiet unless it fails
    local log="$1"
    shift
    if ! "$@" >"$log" 2>&1; then
        echo "build failed: $*" >&2
        tail -40 "$log" >&2
        return 1
    fi
}

build_shim() {
    if [ ! -f target/vtrace.so ] || [ shim/vtrace.c -nt target/vtrace.so ]; then
        run target/shim.log gcc -O1 -g -w -shared -fPIC -o target/vtrace.so.new shim/vtrace.c -ldl -lpthread &&
            mv target/vtrace.so.new target/vtrace.so
    fi
}

build_harness() {
    build_shim || return 1
    fresh "$VERIF_ROOT/target/h" harness
    (cd harness && run ../target/h.log cargo build --offline --release --target-dir "$VERIF_ROOT/target/h")
}
build_real() {
    fresh "$VERIF_ROOT/target/real" realkdf
    (cd realkdf && run ../target/real.log cargo build --offline --release --target-dir "$VERIF_ROOT/target/real")
}
# vmon with a sanitizer, the standard library and the native code included
sanitized() { # name rust-sanitizer c-flags
    fresh "$VERIF_ROOT/target/$1" harness +nightly
    (cd harness && CC=clang CXX=clang++ CFLAGS="$3 -g" RUSTFLAGS="-Zsanitizer=$2 -Cunsafe-allow-abi-mismatch=sanitizer" \
        run "../target/$1.log" cargo +nightly build --offline --release -Zbuild-std --target x86_64-unknown-linux-gnu \
        --target-dir "$VERIF_ROOT/target/$1" --bin vmon --bin volaris-cli)
}
build_tsan() { sanitized tsan thread -fsanitize=thread; }
build_asan() { sanitized asan address "-fsanitize=address,undefined -fsanitize-trap=undefined -fno-sanitize=pointer-overflow,function"; }

build_miri() {
    export MIRI_SYSROOT="$VERIF_ROOT/target/miri-sysroot"
    fresh "$VERIF_ROOT/target/miri" mirix +nightly
    if [ ! -f "$MIRI_SYSROOT/done" ]; then
        run target/miri.log cargo +nightly miri setup && touch "$MIRI_SYSROOT/done" || return 1
    fi
    # nothing to run: leaves the dependencies checked and the program ready
    (cd mirix && run ../target/miri.log cargo +nightly miri run --offline --target-dir "$VERIF_ROOT/target/miri" -- nothing 0)
}
