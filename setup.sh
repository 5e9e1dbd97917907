#!/bin/sh
# Builds the simulator from /repo's working tree, and for C03 the command-line tool, too.
# M04, M05 and M06 use code compiled as it is shipped, the others keep the checks of a debug build.
dir=$(cd "$(dirname "$0")" && pwd) || exit 2
build() {
    cd "$1" && cargo build --profile "$2" --offline --quiet --target-dir "$dir/sim/target"
}
# the standard library for the interpreter (see sim/src/weak.rs); checks do without it if this fails
interpreter() {
    mkdir -p "$dir/sim/target" && MIRI_SYSROOT="$dir/sim/target/miri-sysroot" \
        cargo +nightly miri setup --quiet >"$dir/sim/target/miri-setup.log" 2>&1 ||
        echo "the interpreter could not be set up: see sim/target/miri-setup.log"
}
case "$1" in
"" | M01 | M06) interpreter ;;
esac
case "$1" in
M04 | M05 | M06) build "$dir/sim" shipped || exit 2 ;;
"")
    build "$dir/sim" release || exit 2
    build "$dir/sim" shipped || exit 2
    build "$dir/exit" release || exit 2
    ;;
C03)
    build "$dir/sim" release || exit 2
    build "$dir/exit" release || exit 2
    ;;
*) build "$dir/sim" release || exit 2 ;;
esac
