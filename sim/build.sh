#!/bin/bash
# Builds the simulator with the sources in $REPO (default /repo). Prints the build directory.
# Everything is written under /verif/build; a content hash decides whether anything has to be done.
set -eu -o pipefail
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
unset MAKEFLAGS MAKELEVEL MFLAGS CFLAGS LDFLAGS CPPFLAGS OS MAKEFILES
SIM=$(dirname "$(readlink -f "$0")")
REPO=${REPO:-/repo}
ROOT=$(dirname "$SIM")/build
mkdir -p "$ROOT"
h1=$(cd "$SIM" && cat *.cpp *.hpp build.sh | sha256sum | cut -c1-16)
h2=$( { cd "$REPO/src" && find . -type f \( -name '*.[ch]' -o -name 'Makefile*' -o -name '*.inc' -o -name '*.mk' \) -print0 | sort -z | xargs -0 sha256sum; cat "$SIM/seams.txt" "$SIM/ccwrap.sh"; } | sha256sum | cut -c1-16)
D=$ROOT/run-$h1-$h2
exec 9>"$ROOT/lock"
flock 9
if [ ! -e "$D/ok" ]; then
    if [ ! -e "$ROOT/sim-$h1/dasmsim" ]; then
        for d in "$ROOT"/sim-*; do [ -d "$d" ] && rm -rf "$d"; done
        mkdir -p "$ROOT/sim-$h1"
        pids=()
        for f in "$SIM"/*.cpp; do
            g++ -std=c++17 -O2 -g -mno-red-zone -Wall -Wextra -Wno-dangling-reference -c "$f" -o "$ROOT/sim-$h1/$(basename "${f%.cpp}").o" 1>&2 & pids+=($!)
        done
        for p in "${pids[@]}"; do wait "$p"; done
        g++ -rdynamic -o "$ROOT/sim-$h1/dasmsim.tmp" "$ROOT/sim-$h1"/*.o -ldl 1>&2
        mv "$ROOT/sim-$h1/dasmsim.tmp" "$ROOT/sim-$h1/dasmsim"
    fi
    # keep the build directory small: at most a few recent trees
    { ls -1dt "$ROOT"/run-* 2>/dev/null || true; } | tail -n +6 | while read -r d; do rm -rf "$d"; done
    rm -rf "$D"
    mkdir -p "$D/src"
    cp -r "$REPO/src/." "$D/src/"
    find "$D/src" \( -name '*.o' -o -name '*.d' -o -name dasm -o -name ftohex \) -type f -delete
    make -C "$D/src" -j8 CC="$SIM/ccwrap.sh" dasm ftohex 1>&2
    for k in 0 1 2 3; do cp "$D/src/dasm.so" "$D/dasm.so.$k"; cp "$D/src/ftohex.so" "$D/ftohex.so.$k"; done
    cp "$ROOT/sim-$h1/dasmsim" "$D/dasmsim"
    rm -rf "$D/src"
    touch "$D/ok"
fi
echo "$D"
