#!/bin/bash
# Usage: check.sh <property> quick|thorough     check.sh replay <file>     check.sh build
# Builds the monitors against /repo's current working tree and runs one property's check.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V"
R=/repo
T="$V/target"
mkdir -p "$T" "$V/evidence"
SEED="${VERIF_SEED:-1}"
LOG="$(mktemp)"
trap 'rm -f "$LOG"' EXIT

# What is built must be what is in the tree, whatever the time stamps say.
tree_hash() { (cd "$R" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32); }
fresh() { # target-dir manifest options
  local h; h="$(tree_hash)"
  if [ ! -f "$1/.tree" ] || [ "$(cat "$1/.tree")" != "$h" ]; then
    find "$R/src" "$R/Cargo.toml" -type f >/dev/null
    cargo clean --offline --manifest-path "$2" --target-dir "$1" -p async_zip --release ${3:-} >/dev/null 2>&1 || true
    cargo clean --offline --manifest-path "$2" --target-dir "$1" -p async_zip ${3:-} >/dev/null 2>&1 || true
    echo "$h" > "$1/.tree"
  fi
}
build() {
  fresh "$T" "$V/harness/Cargo.toml"
  if ! cargo build --release --offline --locked --manifest-path "$V/harness/Cargo.toml" --target-dir "$T" >"$LOG" 2>&1; then
    tail -40 "$LOG" >&2
    echo "INCONCLUSIVE: the monitors do not build against /repo" >&2
    exit 2
  fi
}
# One program per feature configuration, for C20. A configuration that does not build is left out: whether it builds is
# not what the property is about.
features() { # tier
  local F="$T/feat" B="$T/feat-bin" list
  mkdir -p "$F"; rm -rf "$B"; mkdir -p "$B"
  fresh "$F" "$V/featcheck/Cargo.toml"
  list="$(python3 - "$1" <<'EOF'
import sys, itertools
f = ["deflate", "bzip2", "lzma", "zstd", "xz", "deflate64"]
if sys.argv[1] == "thorough":
    c = [list(x) for n in range(7) for x in itertools.combinations(f, n)]
    c += [x + [e] for e in ("chrono", "tokio", "tokio-fs") for x in ([], f)]
else:
    c = [[]] + [[x] for x in f] + [[y for y in f if y != x] for x in f] + [["deflate", "zstd", "chrono"], ["lzma", "tokio"]]
print(" ".join(",".join(x) or "none" for x in c))
EOF
)"
  for c in $list; do
    local x="$c"; [ "$c" = none ] && x=""
    if cargo build --offline --locked --manifest-path "$V/featcheck/Cargo.toml" --target-dir "$F" --no-default-features --features "$x" >"$LOG" 2>&1; then
      cp "$F/debug/featcheck" "$B/$c"
    else
      echo "note: features '$x' do not build" >&2
    fi
  done
}
# The same monitors in a build instrumented by a compiler sanitizer, whose reports count as violations. The main run has
# decided about everything else before.
sanitized() { # asan|tsan command...
  local k="$1" S="$T/$1" rc; shift
  export RTMON_SANITIZED=1 RTMON_BUILD="$k" RTMON_EVIDENCE_SUFFIX="-$k"
  export ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1" TSAN_OPTIONS="halt_on_error=1:report_signal_unsafe=0"
  local x="address" more=""
  [ "$k" = tsan ] && { x="thread"; more="-Zbuild-std"; }
  mkdir -p "$S"; fresh "$S" "$V/harness/Cargo.toml" "--target x86_64-unknown-linux-gnu"
  if ! RUSTFLAGS="-Zsanitizer=$x --cfg no_tracking" CC=clang CFLAGS="-fsanitize=$x" RUSTUP_TOOLCHAIN=nightly cargo build $more --release --offline --locked \
      --target x86_64-unknown-linux-gnu --manifest-path "$V/harness/Cargo.toml" --target-dir "$S" >"$LOG" 2>&1; then
    tail -5 "$LOG" >&2
    echo "note: no $k build, its part is left out" >&2
    return 0
  fi
  "$S/x86_64-unknown-linux-gnu/release/rtmon" "$@"; rc=$?
  # What it observed belongs to the evidence of the property.
  python3 - "$V/evidence" "$k" "$2" $rc <<'EOF'
import json, os, sys
d, k, p, rc = sys.argv[1:]
part = os.path.join(d, f"{p}-{k}.json")
if os.path.exists(part):
    x = json.load(open(part)); os.remove(part)
    main = os.path.join(d, f"{p}.json")
    if os.path.exists(main):
        m = json.load(open(main))
        c = x["coverage"]
        m["coverage"][k] = {"cases_run": c.get("cases_run"), "observed": c.get("observed"), "reports": x["violations"], "wall_s": x["wall_s"]}
        m["violations"] = m.get("violations", 0) + x["violations"]
        json.dump(m, open(main, "w"), indent=2)
EOF
  unset RTMON_SANITIZED RTMON_BUILD RTMON_EVIDENCE_SUFFIX
  [ $rc -eq 1 ] && return 1
  [ $rc -ne 0 ] && echo "note: the $k part gave no verdict" >&2
  return 0
}
sanitizers() { # property tier
  case "$1-$2" in
    C07-quick) sanitized asan run C07 --seed "$SEED" --cases 6000 ;;
    C16-quick) sanitized tsan run C16 --seed "$SEED" --cases 1500 ;;
    C16-thorough) sanitized asan run C16 --seed $((SEED + 1000)) && sanitized tsan run C16 --seed $((SEED + 1000)) && sanitized tsan run C16 --seed $((SEED + 2000)) ;;
    # Memory is measured by an allocator the sanitizers replace; the others have nothing but arithmetic to watch.
    C08-*|C14-*|C19-*|C20-*|C21-*|*-quick) return 0 ;;
    *) sanitized asan run "$1" --seed $((SEED + 1000)) ;;
  esac
}
case "${1:-}" in
  build) build ;;
  replay)
    for k in asan tsan; do
      grep -q "\"build\": \"$k\"" "$2" && { sanitized $k replay "$2"; exit $?; }
    done
    build; case "$2" in *C20*) features thorough ;; esac; "$T/release/rtmon" replay "$2"; exit $? ;;
  C*)
    build
    tier="${2:-${VERIF_TIER:-quick}}"
    [ "$1" = C20 ] && features "$tier"
    "$T/release/rtmon" run "$1" --tier "$tier" --seed "$SEED"
    rc=$?
    [ $rc -eq 0 ] && { sanitizers "$1" "$tier"; rc=$?; }
    exit $rc ;;
  *) echo "usage: check.sh <property> quick|thorough | replay <file> | build" >&2; exit 2 ;;
esac
