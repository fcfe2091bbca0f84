#!/bin/bash
# Builds /verif/build/simspasm and /verif/build/simdll from /repo's working tree and /verif/sim.
# Nothing is written in /repo. Objects are cached by content hash; a lock makes parallel calls safe.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8 FORCE_NO_GIT=1
unset CXXFLAGS LDFLAGS CROSS_COMPILE NO_APPSIGN OS MAKEFLAGS CPATH
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${SIM_REPO:-/repo}
B=${SIM_BUILD:-$HERE/build}
mkdir -p "$B/obj"
exec 9>"$B/lock"; flock 9
fail() { echo "BUILD-ERROR: $*" >&2; exit 2; }

# the project's own list of sources and flags
SRC=$(cd "$REPO" && make -pn -f Makefile 2>/dev/null | sed -n 's/^SRC = //p' | head -1)
[ -n "$SRC" ] || fail "no SRC in Makefile"
FLAGS="-DUSE_REUSABLES -DUNIXVER -DUSE_BUILTIN_FCREATE"
HDR=$( (cd "$REPO" && find . -path ./_build -prune -o -path ./.git -prune -o -type f \( -name '*.h' -o -name '*.hpp' -o -name '*.inc' \) -print0 | sort -z | xargs -0 sha256sum; g++ --version | head -1; cat "$HERE/sim/dllshim.h") | sha256sum | cut -c1-16)
SIMH=$(cat "$HERE"/sim/*.h "$HERE/sim/build.sh" | sha256sum | cut -c1-16)
jobs_=(); objs_main=(); objs_dll=(); objs_sim=()
cc() { # src obj flags...
  local s=$1 o=$2; shift 2
  [ -f "$o" ] && return
  ( g++ "$@" -c "$s" -o "$o.tmp$$" 2>"$o.err" && mv "$o.tmp$$" "$o" || { echo "compiling $s" >&2; tail -20 "$o.err" >&2; rm -f "$o.tmp$$"; } ) &
}
for s in $SRC; do
  h=$(sha256sum < "$REPO/$s" | cut -c1-16)
  n=$(basename "$s" .cpp)
  cc "$REPO/$s" "$B/obj/m-$n-$h-$HDR.o" -g -w -fno-pie $FLAGS -Dmain=spasm_main -I"$REPO"
  objs_main+=("$B/obj/m-$n-$h-$HDR.o")
  cc "$REPO/$s" "$B/obj/d-$n-$h-$HDR.o" -g -w -fno-pie $FLAGS -D_WINDLL -include "$HERE/sim/dllshim.h" -Dmain=spasm_main -I"$REPO"
  objs_dll+=("$B/obj/d-$n-$h-$HDR.o")
done
if ! echo "$SRC" | grep -qw dll.cpp; then
  h=$(sha256sum < "$REPO/dll.cpp" | cut -c1-16)
  cc "$REPO/dll.cpp" "$B/obj/d-dll-$h-$HDR.o" -g -w -fno-pie $FLAGS -D_WINDLL -include "$HERE/sim/dllshim.h" -I"$REPO"
  objs_dll+=("$B/obj/d-dll-$h-$HDR.o")
fi
for s in kernel gen checks driver; do
  h=$(sha256sum < "$HERE/sim/$s.cpp" | cut -c1-16)
  cc "$HERE/sim/$s.cpp" "$B/obj/s-$s-$h-$SIMH.o" -g -O1 -std=c++17 -Wall -fno-pie
  objs_sim+=("$B/obj/s-$s-$h-$SIMH.o")
done
for v in main dll; do
  cc "$HERE/sim/entry_$v.cpp" "$B/obj/e-$v-$(sha256sum < "$HERE/sim/entry_$v.cpp" | cut -c1-16)-$SIMH.o" -g -O1 -std=c++17 -Wall -fno-pie
done
wait
for o in "${objs_main[@]}" "${objs_sim[@]}"; do [ -f "$o" ] || fail "missing $o"; done
WRAP=""
for f in malloc calloc free realloc memalign posix_memalign aligned_alloc malloc_usable_size ftime time gettimeofday clock_gettime clock timespec_get getenv secure_getenv; do WRAP="$WRAP,--wrap=$f"; done
link() { # out objs
  local out=$1; shift
  local key; key=$(echo "$@" "$WRAP" | sha256sum | cut -c1-16)
  [ -f "$out" ] && [ "$(cat "$out.key" 2>/dev/null)" = "$key" ] && return 0
  g++ -static -no-pie -o "$out.tmp" "$@" -Wl$WRAP -lm -lgmp -lcrypto 2>"$out.err" || { tail -20 "$out.err" >&2; return 1; }
  mv "$out.tmp" "$out"; echo "$key" > "$out.key"
}
EM="$B/obj/e-main-$(sha256sum < "$HERE/sim/entry_main.cpp" | cut -c1-16)-$SIMH.o"
ED="$B/obj/e-dll-$(sha256sum < "$HERE/sim/entry_dll.cpp" | cut -c1-16)-$SIMH.o"
link "$B/simspasm" "${objs_main[@]}" "${objs_sim[@]}" "$EM" || fail "link simspasm"
if [ "${1:-}" = dll ]; then
  for o in "${objs_dll[@]}"; do [ -f "$o" ] || fail "missing $o"; done
  link "$B/simdll" "${objs_dll[@]}" "${objs_sim[@]}" "$ED" || fail "link simdll"
fi
# forget objects nobody used for a while
find "$B/obj" -type f -mmin +600 -delete 2>/dev/null
exit 0
