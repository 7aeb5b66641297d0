#!/bin/bash
# Builds the harness and tomlkit against /repo's working tree. Prints nothing when it succeeds.
# cargo decides by modification times what to rebuild; a copied or restored tree may have any, so the
# sources are hashed too.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/harness/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/harness/rustc-wrapper.sh"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"
flock 9
sum=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum; cd "$here" && find harness/src harness/cli harness/calls harness/rustc-wrapper.sh harness/Cargo.toml harness/Cargo.lock vendor -type f -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
stamp="$CARGO_TARGET_DIR/.verif-sources"
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$sum" ]; then
    rm -f "$stamp"
    cargo clean --release --offline -p tomllib -p vharness -p calls -p tomlkit >/dev/null 2>&1
fi
log="$CARGO_TARGET_DIR/.verif-build.log"
if ! cargo build --release --offline --workspace >"$log" 2>&1; then
    tail -n 60 "$log"
    echo "BUILD-ERROR the harness does not build against /repo"
    exit 2
fi
echo "$sum" >"$stamp"
