# Sourced: builds of the harness against /repo's current working tree.
# Every build happens under a lock, and starts by dropping what was built of
# the library when its sources are not the ones that were built.
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cap-lints allow"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
HARNESS=$ROOT/harness
mkdir -p "$ROOT/target/run"

quietly() { # command: its output only when it fails
  local out; out=$("$@" 2>&1) || { printf '%s\n' "$out" | tail -n 60 >&2; return 1; }
}

repo_hash() {
  (cd /repo && { find src -type f; ls Cargo.toml; } | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum | cut -d' ' -f1
}

# fresh DIR TOOLCHAIN [options of clean]: CARGO_TARGET_DIR is DIR from here on
fresh() {
  export CARGO_TARGET_DIR=$1
  mkdir -p "$1"
  local h; h=$(repo_hash)
  if [ "$(cat "$1/repo.hash" 2>/dev/null)" != "$h" ]; then
    (cd "$HARNESS" && cargo "$2" clean --offline -p rusty-rtree -p vh ${@:3} >/dev/null 2>&1)
    echo "$h" > "$1/repo.hash"
  fi
}

build_vh() { # feature, where to put it
  (
    flock 9
    fresh "$ROOT/target/vh" +stable
    cd "$HARNESS" && quietly cargo +stable build -q --offline --no-default-features --features "gen,$1" --bin vh &&
      cp "$CARGO_TARGET_DIR/debug/vh" "$2/vh"
  ) 9>"$ROOT/target/vh.lock"
}

build_plain() { # as users build it for speed: optimized, without debug assertions
  (
    flock 9
    fresh "$ROOT/target/plain" +stable --profile plain
    cd "$HARNESS" && quietly cargo +stable build -q --profile plain --offline --no-default-features --features "gen,$1" --bin vh &&
      cp "$CARGO_TARGET_DIR/plain/vh" "$2/vh-plain"
  ) 9>"$ROOT/target/plain.lock" || return 1
  cat > "$2/plain.sh" <<X
#!/bin/sh
exec "$2/vh-plain" exec1 "\$1"
X
  chmod +x "$2/plain.sh"
}

build_asan() {
  (
    flock 9
    fresh "$ROOT/target/asan" +nightly --target x86_64-unknown-linux-gnu
    cd "$HARNESS" && export RUSTFLAGS="--cap-lints allow -Zsanitizer=address" && quietly cargo +nightly build -q --offline \
      --target x86_64-unknown-linux-gnu --no-default-features --features "noalloc,$1" --bin vexec &&
      cp "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/vexec" "$2/vexec-asan"
  ) 9>"$ROOT/target/asan.lock" || return 1
  local leaks=1
  [ "$1" = c20 ] && leaks=0 # a panic in the middle of a change may leak
  # no leak checks: they need ptrace, and the allocator of the plain build
  # and the counts of C18 look for leaks already
  cat > "$2/asan.sh" <<X
#!/bin/sh
ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77 exec "$2/vexec-asan" "\$1"
X
  chmod +x "$2/asan.sh"
}

build_tsan() {
  (
    flock 9
    fresh "$ROOT/target/tsan" +nightly --target x86_64-unknown-linux-gnu
    cd "$HARNESS" && export RUSTFLAGS="--cap-lints allow -Zsanitizer=thread" && quietly cargo +nightly build -q --offline -Zbuild-std \
      --target x86_64-unknown-linux-gnu --no-default-features --features "noalloc,$1" --bin vexec &&
      cp "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/vexec" "$2/vexec-tsan"
  ) 9>"$ROOT/target/tsan.lock" || return 1
  cat > "$2/tsan.sh" <<X
#!/bin/sh
TSAN_OPTIONS=exitcode=77:halt_on_error=1 exec "$2/vexec-tsan" "\$1"
X
  chmod +x "$2/tsan.sh"
}

build_miri() {
  local flags="-Zmiri-disable-isolation -Zmiri-tree-borrows"
  [ "$1" = c20 ] && flags="$flags -Zmiri-ignore-leaks"
  cat > "$2/miri.sh" <<X
#!/bin/sh
unset RUSTFLAGS; cd "$HARNESS" && CARGO_TARGET_DIR="$ROOT/target/miri" MIRIFLAGS="$flags" \\
  exec cargo +nightly miri run -q --offline --no-default-features --features "$1" --bin vexec -- "\$1"
X
  chmod +x "$2/miri.sh"
  (
    flock 9
    fresh "$ROOT/target/miri" +nightly --target x86_64-unknown-linux-gnu
    : > "$2/none.cases"
    quietly "$2/miri.sh" "$2/none.cases"
  ) 9>"$ROOT/target/miri.lock"
}
