#!/bin/bash
# Builds the simulator harness together with /repo's current working tree. Serialised; quiet unless it fails.
cd "$(dirname "$0")" || exit 2
V=$PWD
for d in /root/.cargo/bin "$HOME/.cargo/bin"; do case ":$PATH:" in *":$d:"*) ;; *) [ -d "$d" ] && PATH="$d:$PATH";; esac; done
export PATH
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER RUST_BACKTRACE CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$V/build/target" CARGO_NET_OFFLINE=true
mkdir -p "$V/build"
exec 9>"$V/build/.lock"
flock 9
# Do not rely on time stamps: when the sources differ from those of the last build, drop what cargo remembers about them.
H=$( { find /repo/core /repo/network /repo/macros "$V/sim" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.cc' -o -name '*.h' -o -name '*.inc' -o -name '*.lock' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; rustc --version; } | sha256sum | cut -d' ' -f1)
if [ "$(cat "$V/build/.stamp" 2>/dev/null)" = "$H" ] && [ -x "$V/build/target/x86_64-unknown-linux-gnu/release/ksim" ]; then exit 0; fi
rm -f "$V/build/.stamp"
for d in "$V"/build/target/release/.fingerprint "$V"/build/target/x86_64-unknown-linux-gnu/release/.fingerprint; do
  [ -d "$d" ] && find "$d" -maxdepth 1 \( -name 'kompact*' -o -name 'ksim*' \) -exec rm -rf {} +
done
(cd "$V/sim/harness" && cargo build --release --offline --locked) >"$V/build/build.log" 2>&1 || { grep -E "^error" -A8 "$V/build/build.log" | head -60 >&2; echo "build failed, see $V/build/build.log" >&2; exit 2; }
echo "$H" >"$V/build/.stamp"
