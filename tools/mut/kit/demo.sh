#!/bin/bash
# Repeats a fixed history of instructions (history.json) against the program in the current directory's tree,
# run natively in LiteSVM, and compares every result with what it has to be.
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/repo" || exit 3
tar -C "$root" --exclude=./target --exclude=./.git --exclude=./node_modules -cf - . | tar -C "$scratch/repo" -xf - || exit 3
crate="$scratch/repo/programs/presale"
cp -r "$here/kit" "$crate/kit" || exit 3
{ cat "$crate/Cargo.toml"; cat "$here/kit/deps.toml"; } > "$scratch/Cargo.toml" && mv "$scratch/Cargo.toml" "$crate/Cargo.toml" || exit 3
# compiled dependencies of the ordinary build are used again where possible
if [ -d "$root/target/debug" ]; then
    mkdir -p "$scratch/target/debug/deps"
    cp -a "$root/target/CACHEDIR.TAG" "$root/target/.rustc_info.json" "$scratch/target/" 2>/dev/null
    cp -a "$root/target/debug/build" "$root/target/debug/.fingerprint" "$scratch/target/debug/"
    find "$root/target/debug/deps" -maxdepth 1 \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) -exec cp -a -t "$scratch/target/debug/deps" {} +
fi
cd "$scratch/repo" || exit 3
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$scratch/target"
cargo test --offline --workspace --test presale_demo -- demo "$here/history.json" > "$scratch/out" 2>&1
rc=$?
tail -c 3000 "$scratch/out"
exit $rc
