#!/bin/bash
# Stands in for the compiler when the repository's own Makefile is run on a copy of its sources.
# Compiling adds instrumentation; linking turns the objects into a shared object whose
# calls to the C library's stateful functions go to the simulator.
set -eu
HERE=$(dirname "$(readlink -f "$0")")
FLAGS="-O1 -g -w -fPIC -fno-builtin -U_FORTIFY_SOURCE -D__NO_INLINE__ -fstack-protector-all -fno-omit-frame-pointer -fsanitize-coverage=trace-pc"
for a in "$@"; do
    case "$a" in -c|-E|-M|-MM) exec gcc "$@" $FLAGS ;; esac
done
out=a.out; objs=(); prev=; flags=()
for a in "$@"; do
    if [ "$prev" = -o ]; then out=$a; prev=; continue; fi
    case "$a" in
        -o) prev=-o; continue ;;
        *.c) o=$(mktemp ./ccwrapXXXXXX.o); gcc "${flags[@]}" $FLAGS -c "$a" -o "$o"; objs+=("$o") ;;
        *.o|*.a) objs+=("$a") ;;
        -I*|-D*|-U*|-std*|-f*) flags+=("$a") ;;
    esac
    prev=
done
ld -r -o "$out.all.o" "${objs[@]}"
objcopy --redefine-syms="$HERE/seams.txt" "$out.all.o"
gcc -shared -Wl,-Bsymbolic -Wl,-z,now -o "$out.so" "$out.all.o"
cp "$out.so" "$out"
