#!/bin/bash
# ./check.sh Pxx [thorough] [--replay group idx]
cd "$(dirname "$0")" || exit 2
export VMON_DIR="$PWD" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
P="$1"; shift
if [ "$1" = thorough ]; then export VERIF_TIER=thorough; shift; fi
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
if ! cargo build --offline --manifest-path harness/Cargo.toml >harness/build.log 2>&1; then
  tail -40 harness/build.log >&2; echo "harness does not build" >&2; exit 2
fi
if [ "$P" = P23 ] && ! cargo build --offline --manifest-path ct/Cargo.toml >ct/build.log 2>&1; then
  tail -40 ct/build.log >&2; echo "constant-time runner does not build" >&2; exit 2
fi
N=nightly-x86_64-unknown-linux-gnu; H=x86_64-unknown-linux-gnu
W=(); L=()
need() { # log command...: starts building another variant
  local l="$1"; shift
  nice -n 2 "$@" >"$l" 2>&1 & W+=($!); L+=("$l")
}
if [ "$P" = P27 ] || [ "$P" = P28 ]; then
  need portable/build.log cargo build --offline --manifest-path portable/Cargo.toml
fi
if [ "$P" = P27 ]; then
  need portable/miri.log env RUSTUP_TOOLCHAIN=$N XDG_CACHE_HOME="$PWD/portable/target/$H" cargo miri setup --target $H
  need harness/asan.log env RUSTUP_TOOLCHAIN=$N RUSTFLAGS="-Zsanitizer=address" \
    cargo build --offline --manifest-path harness/Cargo.toml --target $H --target-dir harness/target/asan
  need harness/tsan.log env RUSTUP_TOOLCHAIN=$N RUSTFLAGS="-Zsanitizer=thread" \
    cargo build --offline -Zbuild-std --manifest-path harness/Cargo.toml --target $H --target-dir harness/target/tsan
fi
if [ "$P" = P28 ]; then
  for t in aarch64-unknown-linux-gnu i686-unknown-linux-gnu s390x-unknown-linux-gnu; do
    need portable/miri-$t.log env RUSTUP_TOOLCHAIN=$N XDG_CACHE_HOME="$PWD/portable/target/$t" cargo miri setup --target $t
  done
  need harness/release.log cargo build --offline --release --manifest-path harness/Cargo.toml --target-dir harness/target/plain
  need harness/cpu.log env RUSTFLAGS="-C target-cpu=native" \
    cargo build --offline --release --manifest-path harness/Cargo.toml --target-dir harness/target/cpu
fi
for i in "${!W[@]}"; do
  if ! wait "${W[$i]}"; then tail -40 "${L[$i]}" >&2; echo "${L[$i]}: a build fails" >&2; exit 2; fi
done
harness/target/debug/vmon "$P" "$@"; rc=$?
case $rc in 132|134|135|136|139) # SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: safe calls must not bring the process down
  mkdir -p replays; f="$VMON_DIR/replays/$P-crash-s$VERIF_SEED.json"
  echo "{\"property\":\"$P\",\"what\":\"the process was ended by signal $((rc - 128))\",\"rerun\":\"VERIF_SEED=$VERIF_SEED VERIF_TIER=$VERIF_TIER ./check.sh $P $*\"}" > "$f"
  echo "VIOLATION property=$P replay=$f"; exit 1;;
esac
exit $rc
