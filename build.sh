#!/bin/bash
# Builds the simulator from /repo's current working tree (and this folder's committed files).
# Usage: build.sh [sim|sched|cli|macros]...
#   sim    the simulator (default)
#   sched  the simulator with the code under test instrumented: every edge is a scheduling point (P08)
#   cli    the fajt executable and the shim that simulates its system calls (P06)
#   macros the procedural macros and the shim that simulates directory listings (P15)
here=$(cd "$(dirname "$0")" && pwd)
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
repo=$(cd "$here/../repo" && pwd) || exit 2
mkdir -p "$here/target"
exec 9>"$here/target/.lock"
flock 9

# Cargo decides by modification time what to rebuild; a copy of a tree may carry misleading ones.
# Rebuild whatever changed by content.
hash=$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f \
    \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)

fresh() { # DIR: forget build products of other sources
    if [ -d "$1" ] && [ "$(cat "$1/.source-hash" 2>/dev/null)" != "$hash" ]; then
        shift
        "$@" >/dev/null 2>&1
    fi
}

run() { # LOG COMMAND...
    local log=$1
    shift
    if ! "$@" >"$log" 2>&1; then
        grep -E '^error' -A 8 "$log" | head -60
        tail -5 "$log"
        echo "build failed: $*"
        exit 2
    fi
}

crates="-p fajt_ast -p fajt_common -p fajt_lexer -p fajt_macros -p fajt_parser -p fajt_codegen -p fajt_testing"
[ $# -eq 0 ] && set -- sim
for what in "$@"; do
    case $what in
    sim | sched)
        cd "$here/sim" || exit 2
        if [ "$what" = sched ]; then
            export RUSTC_WRAPPER=$here/tools/instrument.sh
        fi
        dir=$here/target/$what
        fresh "$dir" cargo clean --offline --release --target-dir "$dir" $crates -p fajt-sim -p simhooks
        run "$here/target/build-$what.log" cargo build --offline --locked --release --target-dir "$dir"
        unset RUSTC_WRAPPER
        printf '%s\n' "$hash" >"$dir/.source-hash"
        ;;
    cli)
        cd "$repo" || exit 2
        dir=$here/target/cli
        fresh "$dir" cargo clean --offline --target-dir "$dir" $crates -p fajt
        run "$here/target/build-cli.log" cargo build --offline --locked --bin fajt --target-dir "$dir"
        printf '%s\n' "$hash" >"$dir/.source-hash"
        run "$here/target/build-shim.log" gcc -O2 -Wall -Wno-nonnull-compare -U_FORTIFY_SOURCE -fno-builtin \
            -fno-delete-null-pointer-checks -shared -fPIC -o "$dir/shim.so" "$here/sim/shim/shim.c"
        ;;
    macros)
        cd "$repo" || exit 2
        dir=$here/target/cli
        fresh "$dir" cargo clean --offline --target-dir "$dir" $crates -p fajt
        run "$here/target/build-macros.log" cargo build --offline --locked -p fajt_macros --target-dir "$dir"
        printf '%s\n' "$hash" >"$dir/.source-hash"
        printf '%s\n' "$(rustc --print sysroot)/bin/rustc" >"$dir/rustc-path"
        run "$here/target/build-dirs.log" gcc -O2 -Wall -shared -fPIC -o "$dir/dirs.so" "$here/sim/shim/dirs.c"
        ;;
    esac
done
