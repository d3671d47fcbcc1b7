#!/bin/bash
# scratch.sh DIR: makes DIR/repo and DIR/verif/harness, a copy of the tree to experiment with, then
# "scratch.sh DIR ID..." builds the copy and runs the checks ID... there. Remove DIR afterwards.
set -eu
D=$1; shift
if [ ! -d "$D/repo" ]; then
    mkdir -p "$D/verif"
    git clone -q /repo "$D/repo"
fi
rm -rf "$D/verif/harness"; cp -a /verif/harness "$D/verif/harness"; cp /verif/known_findings.txt "$D/verif/"
sed -i "s#\"/repo#\"$D/repo#" "$D/verif/harness/Cargo.toml"
export CARGO_TARGET_DIR="$D/target" VERIF_REPO="$D/repo" CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path "$D/verif/harness/Cargo.toml" 2>&1 | grep -E "^error|warning: unused" || true
cd "$D/verif"
for i in "$@"; do
    set +e; timeout 900 "$D/target/release/check" $i; echo "$i exit $?"; set -e
done
