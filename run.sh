#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--case N]: builds from /repo's working tree, then checks
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=1.91.0 SWIG_ROOT="$(cd .. && pwd)" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p ../evidence
bin=target/debug/swigcheck
args=(build --offline -q)
if [ "$1" = R01 ]; then . ./asan.env; fi
case "$1" in
  R06|R07|R08) bin=target/debug/sdkcheck; args+=(-p sdkcheck);;
  R09) bin=target/debug/clicheck; args+=(-p clicheck);;
esac
if ! cargo "${args[@]}" 2>../evidence/build-"$1".log; then
  tail -40 ../evidence/build-"$1".log; echo "build failed"; exit 2
fi
rm -f ../evidence/build-"$1".log
unset RUSTFLAGS RUSTC_BOOTSTRAP
exec $bin "$@"
