#!/bin/bash
# Builds the model checker and the luafmt command from /repo's working tree, offline and incrementally.
# cargo goes by mtimes, so a file put back with an old mtime would go unnoticed: a content hash of all inputs decides
# whether what was built from /repo is forgotten first (dependencies stay).
cd "$(dirname "$0")" || exit 2
. ./env.sh
unset RUSTFLAGS RUSTC_WRAPPER
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.mc-lock"
flock 9
stamp=$CARGO_TARGET_DIR/.mc-stamp
inputs() {
    { find /repo \( -path /repo/.git -o -path /repo/target -o -name '*_syntax.rs' \) -prune -o -type f \
          \( -name '*.rs' -o -name '*.lalrpop' -o -name '*.toml' -o -name '.luafmt.lua' \) -print0
      find /verif/mc -type f -print0; } | LC_ALL=C sort -z | xargs -0 sha256sum
}
now=$(inputs)
bins="$CARGO_TARGET_DIR/release/mc $CARGO_TARGET_DIR/release/luafmt $CARGO_TARGET_DIR/faultrun"
fresh=yes
for b in $bins; do [ -e "$b" ] || fresh=no; done
if [ $fresh = no ] || [ ! -f "$stamp" ] || [ "$now" != "$(cat "$stamp")" ]; then
    rm -rf "$stamp" "$CARGO_TARGET_DIR"/release/.fingerprint/luafmt-* "$CARGO_TARGET_DIR"/release/.fingerprint/mc-*
    for grammar in $(find /repo/src -name '*.lalrpop'); do rm -f "${grammar%.lalrpop}.rs"; done
    cd mc || exit 2
    log=$CARGO_TARGET_DIR/.mc-build.log
    { cargo build --release --offline &&
      cargo build --release --offline -p luafmt --bin luafmt &&
      gcc -O1 -o "$CARGO_TARGET_DIR/faultrun" c/faultrun.c; } >"$log" 2>&1 || { tail -40 "$log"; exit 2; }
    echo "$now" > "$stamp"
fi
exit 0
