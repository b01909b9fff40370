#!/bin/bash
# Build the model checker against the current working tree of /repo and print the binary's path.
# MC_SSO=1 builds it against the crate's `sso-lv10` feature set.
# Everything goes to $VERIF/target (git-ignored); /repo is only read.
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$V/target/b${MC_SSO:+-sso}"
T="$CARGO_TARGET_DIR"
mkdir -p "$T"
exec 9>"$T/.lock"; flock 9
REPO=/repo
H=$( (cd "$REPO" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$V/mc/Cargo.toml") | sha256sum | cut -d' ' -f1)
F="std${MC_SSO:+,sso}"
build() { # $1 rustflags $2 features
  # cargo trusts mtimes; when the content of /repo changed, force the crate to be rebuilt
  if [ "$(cat "$T/.hash" 2>/dev/null)" != "$H $1 $2" ]; then
    (cd "$V/mc" && RUSTFLAGS="$1" cargo clean --offline -p mqtt-protocol-core -p mc) >/dev/null 2>&1
    rm -f "$T/.hash"
  fi
  (cd "$V/mc" && RUSTFLAGS="$1" cargo build --offline --no-default-features --features "$2") >"$T/build.log" 2>&1 || return 1
  echo "$H $1 $2" >"$T/.hash"
  return 0
}
if build "--cfg mqtt_verif" "$F,hook"; then echo "$T/debug/mc"; exit 0; fi
cp "$T/build.log" "$T/build-hook.log" 2>/dev/null
echo "note: hooked build failed, falling back to the public-API-only build" >&2
if build "" "$F"; then echo "$T/debug/mc"; exit 0; fi
tail -40 "$T/build.log" >&2
exit 2
