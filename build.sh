#!/bin/bash
# Build the model checker against /repo's current working tree.
set -e
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_DIR"
mkdir -p .build
exec 9>.build/lock
flock 9
[ -e .build/cargo-home/config ] && [ -e .build/link.args ] && [ .build/link.args -nt prep.py ] || python3 prep.py
# the program itself, as a library: its source with a way in
repo=$(sed -n 's/^cernan = .*path = "\([^"]*\)".*/\1/p' harness/Cargo.toml)
mkdir -p .build/prog/src
{ printf '[package]\nname = "cernan-prog"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\ncernan = { path = "%s" }\n' "$repo"
  sed -n '/^\[dependencies\]/,/^$/p' "$repo/Cargo.toml" | sed 1d; } > .build/prog/Cargo.toml.new
{ cat "$repo/src/bin/cernan.rs"; printf '\npub fn mc_entry() {\n    main()\n}\n'; } > .build/prog/src/lib.rs.new
for f in Cargo.toml src/lib.rs; do
  cmp -s .build/prog/$f.new .build/prog/$f || mv .build/prog/$f.new .build/prog/$f
done
# cargo goes by modification times; we go by content
sum=$(cd /repo && find src Cargo.toml Cargo.lock resources -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$sum" != "$(cat .build/repo.sum 2>/dev/null)" ]; then
  find .build/target/debug/.fingerprint -maxdepth 1 -name 'cernan-[0-9a-f]*' -exec /bin/rm -r {} + 2>/dev/null || true
fi
cd harness
log="$VERIF_DIR/.build/build.log"
for try in 1 2 3 4; do
  if cargo build --offline --locked 2>"$log"; then ok=1; break; fi
  ok=0
  # the compiler itself, not the code, failed: try again, with fewer jobs
  grep -qE "internal compiler error|panicked at|signal: |Resource temporarily|failed to spawn|os error" "$log" || break
  echo "build attempt $try failed:"; grep -nE "panicked at|signal: |os error" "$log" | head -5
  export CARGO_BUILD_JOBS=$((8 / (try + 1)))
  sleep $((try * 3))
done
[ $ok = 1 ] || { grep -E '^error' -A12 "$log" | head -80; tail -5 "$log"; echo "BUILD FAILED"; exit 3; }
echo "$sum" > "$VERIF_DIR/.build/repo.sum"
