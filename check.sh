#!/bin/bash
# check.sh <ID>            run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh build           build everything the checks use
# check.sh replay <file>   run the case of a replay file again
set -u
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p evidence replays
build() { # every check is built from /repo's current working tree
  local log
  log=$(cargo build --release --offline --manifest-path harness/Cargo.toml 2>&1) && return 0
  printf '%s\n' "$log" | tail -40
  echo "check.sh: the harness does not build against /repo"
  exit 2
}
# the sanitized builds of the harness; one that cannot be made is left out and shows as inconclusive
sanitized() {
  local t=x86_64-unknown-linux-gnu d="$PWD/harness/target/san"
  mkdir -p "$d"
  one() { # name, sanitizer flags, cargo flags...
    local n=$1 f=$2; shift 2
    RUSTFLAGS="$f" cargo +nightly build "$@" --release --offline --target $t --manifest-path harness/Cargo.toml --target-dir "$d/$n" >"$d/$n.log" 2>&1
  }
  one asan "-Zsanitizer=address" &
  one tsan "-Zsanitizer=thread" -Zbuild-std &
  one msan "-Zsanitizer=memory" -Zbuild-std &
  RUSTFLAGS="-Zmir-opt-level=3 -Zinline-mir=yes" MIRIFLAGS="-Zmiri-disable-isolation" \
    cargo +nightly miri run --quiet --offline --manifest-path harness/Cargo.toml --target-dir "$d/miri" -- c19worker miri 1 0 0 >"$d/miri.log" 2>&1 && touch "$d/miri.ok" || rm -f "$d/miri.ok"
  wait
  for n in asan tsan msan; do
    # the build must be of the current tree: ask cargo's own verdict in its log
    grep -q 'Finished' "$d/$n.log" && export "C19_${n^^}=$d/$n/$t/release/monitor" || { echo "check.sh: no $n build"; tail -5 "$d/$n.log"; }
  done
  [ -e "$d/miri.ok" ] && export C19_MIRI="$d/miri" || { echo "check.sh: no Miri build"; tail -5 "$d/miri.log"; }
}
case "${1:-}" in
  build) build; sanitized ;;
  replay) build; grep -q '"C19"' "$2" && sanitized; harness/target/release/monitor replay "$2" ;;
  C19) build; sanitized; exec harness/target/release/monitor C19 ;;
  C[0-9]*) build; exec harness/target/release/monitor "$1" ;;
  *) echo "usage: check.sh <ID>|build|replay <file>"; exit 2 ;;
esac
