# Sourced from /verif: builds the harness and sets BIN.
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p "$CARGO_TARGET_DIR" evidence replays
BIN="$CARGO_TARGET_DIR/release/check"
build() {
    # Cargo goes by modification times; a content hash also notices sources swapped in with old ones.
    local stamp="$CARGO_TARGET_DIR/repo.sha" now
    now=$(find /repo/src /repo/uwuhi-async/src /repo/Cargo.toml /repo/uwuhi-async/Cargo.toml harness/src harness/dict_base.txt harness/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        (cd harness && cargo clean --release --offline -p uwuhi -p uwuhi-async -p uwuhi-verif) >/dev/null 2>&1
    fi
    (cd harness && cargo build --release --offline --locked) >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/build.log"; return 1; }
    echo "$now" >"$stamp"
}
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
build
rc=$?
flock -u 9
exec 9>&-
return $rc
