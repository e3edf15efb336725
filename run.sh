#!/bin/bash
# Builds the monitors against the working tree of /repo and runs the check of one property.
# usage: run.sh Cxx [--case work:unit:iter]
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-2025-10-03
. "$here/tools/build.sh"
log="$here/target-build.log"
case "$1" in
C29|C30)
  # The headers must be usable by themselves, from C and from C++.
  if [ "$1" = C30 ]; then
    mkdir -p "$here/evidence/replay"
    for h in m68000/m68000.h m68000/m68000-ffi.h; do
      for cc in "clang -std=c11 -x c" "gcc -std=c11 -x c" "clang++ -std=c++17 -x c++" "g++ -std=c++17 -x c++"; do
        if ! echo "#include <$h>" | $cc -fsyntax-only -I/repo/include - 2>"$log"; then
          r="$here/evidence/replay/C30-header.txt"
          { echo "echo '#include <$h>' | $cc -fsyntax-only -I/repo/include -"; cat "$log"; } > "$r"
          head -5 "$r"; echo "VIOLATION property=C30 replay=$r"; exit 1
        fi
      done
    done
  fi
  build_ffi 2>"$log" || { cat "$log"; echo "build failed"; exit 4; }
  mkdir -p "$here/evidence/replay"
  # C30: the same kind of calls, in small numbers, interpreted by Miri, beside the sanitized run.
  mr="$here/evidence/replay/C30-miri.txt"; mpids=""
  if [ "$1" = C30 ] && [ $# = 1 ]; then
    # A report of Miri's during the trial run is left to the runs below.
    build_miri >"$log" 2>&1 || grep -qE "Undefined Behavior|memory leaked" "$log" || { cat "$log"; echo "build failed"; exit 4; }
    n=150; seeds=2; [ "${VERIF_TIER:-quick}" = thorough ] && { n=1500; seeds=6; }
    for k in $(seq $seeds); do ( run_miri $(( ${VERIF_SEED:-1} * 100 + k )) $n >"$mr.$k" 2>&1; echo "status $?" >>"$mr.$k" ) & mpids="$mpids $!"; done
  fi
  r="$here/evidence/replay/$1-crash.txt"
  ASAN_OPTIONS=exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1 "$here/target-ffi/x86_64-unknown-linux-gnu/release/ffimon" "$@" 2>"$r"
  st=$?
  [ -n "$mpids" ] && wait $mpids
  case $st in
  0)
    cat "$r" >&2; rm -f "$r"
    for k in ${mpids:+$(seq $seeds)}; do
      if grep -q "^status 0" "$mr.$k"; then :
      elif grep -qE "Undefined Behavior|memory leaked|panicked at|abnormal termination|unsupported operation" "$mr.$k"; then
        cp "$mr.$k" "$mr"; echo "replay: (cd $here/miri && $miri_env cargo +nightly miri run --offline -- $(( ${VERIF_SEED:-1} * 100 + k )) $n)" >>"$mr"
        grep -m1 -A8 "error" "$mr"; echo "VIOLATION property=C30 replay=$mr"; rm -f "$mr".[0-9]*; exit 1
      else cat "$mr.$k"; echo "Miri gave no answer"; rm -f "$mr".[0-9]*; exit 3; fi
    done
    if [ -n "$mpids" ]; then
      python3 - "$here/evidence/C30.json" "$mr".[0-9]* <<'PY'
import json,sys
p=sys.argv[1];e=json.load(open(p))
e["coverage"]["miri"]=[l.strip() for f in sys.argv[2:] for l in open(f) if l.startswith("miri:")]
json.dump(e,open(p,"w"),indent=1)
PY
      rm -f "$mr".[0-9]*
    fi
    exit 0;;
  1|3|4) cat "$r" >&2; rm -f "$r" "$mr".[0-9]*; exit $st;;
  esac
  # A sanitizer report, or a crash, of the calls made from C.
  { echo "exit status $st"; echo "replay: VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} $here/run.sh $*"; } >> "$r"
  grep -m1 -A12 "ERROR: AddressSanitizer" "$r" || tail -5 "$r"
  echo "VIOLATION property=$1 replay=$r"
  exit 1
  ;;
esac
case "$1" in
C38|C39|C41) build_bins 2>"$log" || { cat "$log"; echo "build failed"; exit 4; }; export MON_BIN_DIR="$here/target-bins/release";;
esac
build_mon 2>"$log" || { cat "$log"; echo "build failed"; exit 4; }
if [ "$1" = C31 ] && [ $# = 1 ]; then
  # Cores on several threads under ThreadSanitizer, once it has been seen to report a race made on purpose.
  build_race >"$log" 2>&1 || { cat "$log"; echo "build failed"; exit 4; }
  mkdir -p "$here/evidence/replay"
  race="$here/target-race/x86_64-unknown-linux-gnu/release/race"; r="$here/evidence/replay/C31-race.txt"
  export TSAN_OPTIONS=halt_on_error=1:exitcode=66
  n=1000; [ "${VERIF_TIER:-quick}" = thorough ] && n=100000
  if "$race" probe 2>&1 | grep -q "ThreadSanitizer: data race"; then
    timeout 2000 "$race" run "${VERIF_SEED:-1}" $n >"$r" 2>&1; rc=$?
    case $rc in
    0) found="$(grep '^race:' "$r")"; rm -f "$r";;
    66|67)
      echo "replay: TSAN_OPTIONS=$TSAN_OPTIONS $race run ${VERIF_SEED:-1} $n" >>"$r"
      grep -m1 -A12 "ThreadSanitizer\|DIVERGED" "$r"; echo "VIOLATION property=C31 replay=$r"; exit 1;;
    *) tail -5 "$r"; echo "the race detector gave no answer ($rc)"; exit 3;;
    esac
  else found="race: ThreadSanitizer does not report a race made on purpose in this environment; not used"; fi
  echo "$found"
  "$here/target/release/mon" "$@"; rc=$?
  python3 - "$here/evidence/C31.json" "$found" <<'PY'
import json,sys
p=sys.argv[1];e=json.load(open(p))
e["coverage"]["race_detector"]=sys.argv[2]
json.dump(e,open(p,"w"),indent=1)
PY
  exit $rc
fi
exec "$here/target/release/mon" "$@"
