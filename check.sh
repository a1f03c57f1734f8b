#!/bin/bash
# check.sh PROPERTY [--thorough]: rebuild the harness against /repo's working tree, run one property.
# check.sh --replay FILE: run the recorded case again.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no verdict.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p work evidence
# The sources of /repo may carry older time stamps than the build products (a checkout, a copy):
# cargo would then take stale products for fresh ones.
sum=$(find /repo/crates -name '*.rs' -path '*/src/*' -print0 -o -name Cargo.toml -path '/repo/crates/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.repo-sum 2>/dev/null)" != "$sum" ]; then
  for c in hcl-rs hcl-edit hcl-primitives hcl2json; do rm -rf "/verif/target/debug/.fingerprint/$c-"* "/verif/target/cli/debug/.fingerprint/$c-"*; done
  mkdir -p target && printf '%s' "$sum" > target/.repo-sum
fi
build() {
  if ! out=$("$@" 2>&1); then
    printf '%s\n' "$out" | tail -60
    echo "ERROR: this does not build against /repo: $*"
    exit 3
  fi
}
case "$*" in
  *C24*) exec python3 tools/macros.py "$@" ;;
esac
build cargo build --offline --manifest-path harness/Cargo.toml
case "$*" in
  *C19*) . ./cli.sh ;;
esac
exec target/debug/hv "$@"
