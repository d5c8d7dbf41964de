#!/bin/bash
# usage: check.sh PROP quick|thorough   build the harness against /repo's working tree and run one property's monitors
#        check.sh --build               only build (setup_cmd)
cd "$(dirname "$0")" || exit 2
HERE=$PWD
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$HERE/.build CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg hmmcl_verif"
mkdir -p .build evidence
# the Python reference pool: nothing to build, its file is compiled from /repo at every run
case "$1" in C31 | C32) exec python3 -B -s pypool/pymon.py check "$1" "${2:-${VERIF_TIER:-quick}}" ;; esac
build() {
    # never trust file times alone: a changed tree is recompiled because its contents changed
    local h
    h=$(cd /repo && find programs Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name 'Cargo.*' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$h" != "$(cat .build/repo.hash.$1 2>/dev/null)" ]; then
        rm -rf "$HERE"/.build/$1/.fingerprint/hmmcl-sandbox-* "$HERE"/.build/$1/deps/libhmmcl_sandbox-*
    fi
    (cd harness && cargo build --profile $1 --offline) >.build/build.log 2>&1 || { tail -n 40 .build/build.log; return 1; }
    echo "$h" >.build/repo.hash.$1
}
# C29 runs in the build that traps integer overflow
PROFILE=release
[ "$1" = C29 ] && PROFILE=checked
exec 9>.build/lock
flock 9
build $PROFILE || { echo "build failed"; exit 2; }
[ "$1" = --build ] && { build checked || { echo "build failed"; exit 2; }; }
flock -u 9
exec 9>&-
[ "$1" = --build ] && exit 0
exec .build/$PROFILE/verif-harness check "$1" "${2:-${VERIF_TIER:-quick}}"
