#!/bin/bash
# builds the simulation harness from /repo's working tree (offline); prints nothing on success
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=$V/tools/rustc-wrap.sh CARGO_TARGET_DIR=$V/target
# one configuration only: the stand-in for std is found by name, so a second build of it with other settings must not appear
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
for v in $(compgen -e CARGO_PROFILE_); do unset "$v"; done
cd "$V/harness" || exit 2
mkdir -p "$V/work"
exec 9>"$V/work/build.lock"; flock 9
# the program itself becomes a library, so that a run can start it
mkdir -p "$V/work/app"
for f in /repo/src/bin/*; do
  n=$(basename "$f")
  if [ "$n" = main.rs ]; then { cat "$f" && printf '\npub fn narsim_entry() { let _ = main(); }\n'; } >"$V/work/app/.new"
    cmp -s "$V/work/app/.new" "$V/work/app/$n" || cp "$V/work/app/.new" "$V/work/app/$n"
  else rm -rf "$V/work/app/${n:?}"; cp -r "$f" "$V/work/app/"; fi
done
# cargo trusts modification times; compare the content of everything under test instead
h=$( (cd /repo && find Cargo.toml Cargo.lock build.rs src -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum
      cd "$V/sim" && find . -type f | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum)
if [ "$h" != "$(cat "$V/target/src.hash" 2>/dev/null)" ]; then
  rm -f "$V/target/src.hash"
  rm -rf "$V"/target/debug/.fingerprint/nar20_1-* "$V"/target/debug/.fingerprint/narsim_app-*
fi
if ! cargo build --offline >"$V/work/build.log" 2>&1; then
  grep -E "^error" -A12 "$V/work/build.log" | head -60 >&2
  echo "harness build failed (log: $V/work/build.log)" >&2
  exit 2
fi
if ! "$V/target/debug/narsim" sane >/dev/null 2>&1; then
  # more than one build of the stand-in: start over
  rm -rf "$V/target/debug"
  cargo build --offline >"$V/work/build.log" 2>&1 && "$V/target/debug/narsim" sane >/dev/null 2>&1 || { echo "harness does not run (log: $V/work/build.log)" >&2; exit 2; }
fi
echo "$h" > "$V/target/src.hash"
