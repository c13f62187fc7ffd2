#!/bin/bash
# usage: checks/run.sh C01 [extra runner args]     (builds from /repo's working tree, then searches)
cd "$(dirname "$0")/.." || exit 2
P=$1; shift
export VERIF_DIR=$PWD OMP_NUM_THREADS=1
export ASAN_OPTIONS=detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
if [ ! -f "${REPO:-/repo}/include/fnft_config.h" ]; then bash pbt/cfg/gen.sh "${REPO:-/repo}" || exit 2; fi
build() { make -s -j8 V=$1 "build/$1/$2" >&2 || { echo "build failed" >&2; exit 2; }; }
export TSAN_OPTIONS=halt_on_error=1:exitcode=66:second_deadlock_stack=1
part() { name=$1; shift; if [ $rc != 0 ] && [ "$VERIF_TIER" != thorough ] && [ $SECONDS -gt 300 ]; then echo "$P: $name not run, a violation was found and time is short" >&2; return; fi; env PBT_AS=$P PBT_EVIDENCE=1 PBT_PROGRAM=$name PBT_EVFILE="$W/$name.json" "$@"; r=$?; [ $r -gt $rc ] && rc=$r; }
if [ "$P" = C23 ]; then # as shipped, and with the thread sanitizer
  if [ "$1" = --replay ]; then case $(sed -n 's/.*"program":"\([^"]*\)".*/\1/p' "$2" | head -1) in tsan) build tsan C23; exec build/tsan/C23 C23 "$@";; *) build rel C23; exec build/rel/C23 C23 "$@";; esac; fi
  build rel C23; build tsan C23; W=$(mktemp -d); trap '/bin/rm -rf "$W"' EXIT; rc=0
  part C23 build/rel/C23 C23 "$@"
  if [ $# = 0 ]; then part tsan build/tsan/C23 C23; python3 tools/merge_evidence.py evidence/C23.json "$W"/*.json || rc=2; fi
  exit $rc
fi
if [ "$P" != C20 ]; then build rel "$P"; exec "build/rel/$P" "$P" "$@"; fi

# C20 has several parts: instrumented programs, and the program as shipped under valgrind.
VG="valgrind -q --trace-children=yes --log-file=/dev/null"
if [ "$1" = --replay ]; then
  prog=$(sed -n 's/.*"program":"\([^"]*\)".*/\1/p' "$2" | head -1)
  export PBT_AS=C20
  case $prog in
    valgrind) build rel C20; exec $VG build/rel/C20 C20 "$@";;
    C20) build asan C20; exec build/asan/C20 C20 "$@";;
    C*) build asan "$prog"; PBT_CRASHONLY=1 exec "build/asan/$prog" "$prog" "$@";;
  esac
  echo "cannot tell the program of $2" >&2; exit 2
fi
OTHER="C16 C17 C18 C19 C21"
for o in C20 $OTHER; do [ -f laws/$o.cpp ] && T="$T build/asan/$o"; done
make -s -j8 V=asan $T >&2 || { echo "build failed" >&2; exit 2; }
build rel C20
W=$(mktemp -d); trap '/bin/rm -rf "$W"' EXIT; rc=0
if [ "$VERIF_TIER" = thorough ]; then S=0.2; else S=0.2; export PBT_CAP=${PBT_CAP:-110}; fi
part C20 build/asan/C20 C20 "$@"
part valgrind $VG build/rel/C20 C20 "$@"
if [ $# = 0 ]; then for o in $OTHER; do [ -f laws/$o.cpp ] && part $o env PBT_CRASHONLY=1 PBT_SCALE=$S build/asan/$o $o; done
python3 tools/merge_evidence.py evidence/C20.json "$W"/*.json || rc=2
fi
exit $rc
