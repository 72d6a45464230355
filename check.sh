#!/bin/bash
# check.sh ID: build what the property's monitor needs from /repo's working
# tree, run it, write evidence/ID.json. check.sh build: only build everything.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
command -v cargo >/dev/null || export PATH="$HOME/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export FORMAT_TESTS=false FORMAT_TESTS_BACKUP=false
# bindgen of onig_sys needs the older libclang
export LIBCLANG_PATH=/usr/lib/llvm-14/lib
unset RUST_LOG RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export RUST_BACKTRACE=0
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1
id=$1
T=$PWD/target
mkdir -p out evidence

say() { echo "check.sh: $*" >&2; }
build() { # NAME COMMAND...
    local name=$1
    shift
    if ! (cd harness && "$@") >"out/build-$name.log" 2>&1; then
        say "the $name build failed:"
        tail -30 "out/build-$name.log" >&2
        exit 2
    fi
}
stable=(cargo +stable build --release --offline --locked)
nightly=(cargo +nightly build --release --offline --locked --target x86_64-unknown-linux-gnu)
default() { build default "${stable[@]}" --target-dir "$T"; }
onig() { build onig "${stable[@]}" --features oniguruma --bin jstmon --target-dir "$T/onig"; }
asan() {
    build asan env CC=clang CFLAGS="-fsanitize=address -fno-omit-frame-pointer -g -O1" \
        RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" \
        "${nightly[@]}" --features oniguruma --bin jstmon --target-dir "$T/asan"
}
tsan() {
    build tsan env CC=clang CFLAGS="-fsanitize=thread -g -O1" RUSTFLAGS="-Zsanitizer=thread" \
        "${nightly[@]}" -Zbuild-std --features oniguruma --bin jstmon --target-dir "$T/tsan"
}

if [ "$id" = build ]; then
    default
    onig
    asan
    exit 0
fi
default
case $id in
C12 | C39) onig ;;
C28)
    asan
    [ "$VERIF_TIER" = thorough ] && tsan
    ;;
C02) [ "$VERIF_TIER" = thorough ] && tsan ;;
esac
if [ "$id" = replay ]; then
    exec "$T/release/jstmon" replay "$2"
fi
exec "$T/release/jstmon" check "$id"
