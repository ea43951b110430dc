#!/bin/bash
# Builds one part from the committed files and /repo's working tree, offline: build.sh harness|cli|macros
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/tools/env.sh"
case "$1" in
  # With the run-time checks of a debug build, and optimised without them.
  harness)
    cargo build --offline --release --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target/build" &
    a=$!
    # And with run-time checks and coverage counters in the crates of /repo.
    RUSTC_WRAPPER="$here/tools/rustc-cov.sh" cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target x86_64-unknown-linux-gnu --target-dir "$here/target/guided" &
    b=$!
    cargo build --offline --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target/build" || exit
    wait $a && wait $b
    exit
    ;;
  # The command line tool, as /repo's own workspace builds it.
  cli) exec cargo build --offline --manifest-path /repo/alg_cli/Cargo.toml --target-dir "$here/target/cli" ;;
  # Libraries for the generated programs that use the macros, and the list of what was built.
  macros)
    mkdir -p "$here/target/macros"
    exec cargo build --offline --manifest-path "$here/macros/Cargo.toml" --target-dir "$here/target/macros" --message-format=json-render-diagnostics >"$here/target/macros/artifacts.json"
    ;;
esac
exit 2
