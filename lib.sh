# Builds the harness and the program from /repo's working tree. Sourced by setup.sh and check.sh.
cd "$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
REPO=/repo
mkdir -p .build .replays evidence
exec 9>.build/lock
flock 9

# Content of everything the builds depend on: cargo itself only looks at modification times.
stamp() {
  { cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1
}

try_cargo() { # log, command...
  local log="$1"; shift
  "$@" >"$log" 2>&1 && return 0
  # once more from scratch for the crate under test, in case of stale artefacts
  cargo clean --release --offline -p panacea --manifest-path "$VERIF_DIR/harness/Cargo.toml" --target-dir "$VERIF_DIR/.build" >/dev/null 2>&1
  "$@" >"$log" 2>&1
}

run_cargo() { # log, command...
  if ! try_cargo "$@"; then
    tail -n 40 "$1"
    echo "build failed"
    exit 2
  fi
}

build_pv() {
  local now; now="$(stamp)"
  if [ "$(cat .build/stamp.pv 2>/dev/null)" != "$now" ]; then
    cargo clean --release --offline -p panacea --manifest-path harness/Cargo.toml --target-dir .build >/dev/null 2>&1
  fi
  export CARGO_TARGET_DIR="$VERIF_DIR/.build"
  local build=(cargo build --release --offline --locked --manifest-path harness/Cargo.toml)
  if [ "$(cat .build/stamp.nohooks 2>/dev/null)" = "$now" ] ||
    ! RUSTFLAGS="-C target-cpu=x86-64-v3 --cfg panacea_verif" try_cargo .build/pv.log "${build[@]}"; then
    # the hooks in /repo may not fit any more; the checks then do with the public interface (hooks.rs)
    RUSTFLAGS="-C target-cpu=x86-64-v3" run_cargo .build/pv.log "${build[@]}"
    echo "$now" >.build/stamp.nohooks
    echo "built without the hooks"
  fi
  unset CARGO_TARGET_DIR
  echo "$now" >.build/stamp.pv
}

build_cli() {
  local now; now="$(stamp)"
  if [ "$(cat .build/stamp.cli 2>/dev/null)" != "$now" ]; then
    (cd "$REPO" && cargo clean --release --offline -p panacea --target-dir "$VERIF_DIR/.build/cli") >/dev/null 2>&1
  fi
  CARGO_TARGET_DIR="$VERIF_DIR/.build/cli" RUSTFLAGS="-C target-cpu=x86-64-v3" \
    CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 \
    run_cargo .build/cli.log cargo build --release --offline --locked --bin panacea --manifest-path "$REPO/Cargo.toml"
  echo "$now" >.build/stamp.cli
}
