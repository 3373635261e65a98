#!/bin/bash
# usage: bash /verif/check.sh PROPERTY [--replay FILE]      (VERIF_TIER=quick|thorough)
# Builds the harness of the property against /repo's current working tree, then explores.
# exit 0: held on everything explored; 1: violated; 2: no answer (the tree does not build, ...)
prop=${1:?usage: check.sh PROPERTY [--replay FILE]}
shift
[ "${1:-}" = --replay ] && set -- --replay "$(realpath "${2:?--replay FILE}")"
export VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=$VERIF_DIR/target CARGO_NET_OFFLINE=true RUSTFLAGS="${RUSTFLAGS:-} -Awarnings"
case $prop in
  C2[0-8]) crate=lex bin=lexmc ;;
  C29|C30|C31) crate=xml bin=xmlmc ;;
  C17|C18) crate=cli bin=climc ;;
  C08|C15) crate=e2e bin=e2emc ;;
  *) crate=gen bin=genmc ;;
esac
cd "$VERIF_DIR/harness/$crate" || exit 2
log=$CARGO_TARGET_DIR/$crate-build.log
mkdir -p "$CARGO_TARGET_DIR"
messages=()
if [ $crate = e2e ]; then
  # e2emc compiles the generated modules against the libraries of this very build
  export E2E_ARTIFACTS=$CARGO_TARGET_DIR/e2e-artifacts.json
  messages=(--message-format=json-render-diagnostics)
fi
if ! cargo build --release --offline "${messages[@]}" >"${E2E_ARTIFACTS:-$log.out}" 2>"$log"; then
  echo "BUILD FAILED: $crate (see below)"; tail -40 "$log"; exit 2
fi
if [ $crate = cli ]; then
  # the executables themselves, from /repo's working tree
  if ! CARGO_TARGET_DIR=$CARGO_TARGET_DIR/repo cargo build --release --offline --locked --manifest-path /repo/Cargo.toml -p xsd-parser-cli -p wsdl-parser-cli >"$log" 2>&1; then
    echo "BUILD FAILED: command-line tools (see below)"; tail -40 "$log"; exit 2
  fi
fi
exec "$CARGO_TARGET_DIR/release/$bin" "$prop" "$@"
