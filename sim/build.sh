#!/bin/bash
# Builds simrun from /repo's working tree (or the tree given as $2) into the directory $1.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$1
repo=${2:-/repo}
jobs=${SIM_JOBS:-8}
mkdir -p "$out/lib" "$out/sim"
rm -f "$out/lib"/*.o "$out/sim"/*.o
# the sources of the repository's own (non-PETSc) libraries, from its build files
list=$(cd "$repo/src" && for d in . blas utils; do
    [ -f $d/CMakeLists.txt ] || continue
    for f in $(grep -o '[A-Za-z0-9_./-]*\.cpp' $d/CMakeLists.txt | sort -u); do
        [ -f $d/$f ] || continue
        grep -qi 'include.*petsc' $d/$f && continue
        echo $d/$f
    done
done)
inc="-I$repo/include -I$repo/src -I$here/petsc/include -isystem /usr/include/eigen3"
LIBF="-std=c++14 -O2 -g1 -fopenmp -fsanitize=thread -msse4.2 -DEIGEN_DONT_PARALLELIZE -UNDEBUG -U_FORTIFY_SOURCE -w -I$repo/include -I$repo/src -I/usr/include/eigen3"
SIMF="-std=c++17 -O2 -g1 -fopenmp -fno-strict-aliasing -U_FORTIFY_SOURCE -w $inc"
{
    for f in $list; do echo "g++ $LIBF -c $repo/src/$f -o $out/lib/$(echo "$f" | sed 's|^\./||; s|/|_|g').o"; done
    echo "g++ $LIBF -c $here/sut_shim.cpp -o $out/lib/sut_shim.o"
    # the PETSc plugin, against the simulated PETSc; only P19 needs it
    echo "g++ $LIBF -I$here/petsc/include -c $repo/src/blasted_petsc.cpp -o $out/lib/blasted_petsc.o || rm -f $out/lib/blasted_petsc.o"
    # ... and its utilities; only P20 needs them
    for f in blasted_petsc_io cmdoptions; do echo "g++ $LIBF -I$here/petsc/include -c $repo/src/utils/$f.cpp -o $out/lib/utils_$f.o || rm -f $out/lib/utils_$f.o"; done
    for f in core model wl_common wl_solvers wl_mat wl_res wl_p12 wl_mm wl_ext wl_own wl_petsc wl_pio main; do echo "g++ $SIMF $([ $f = wl_own ] && echo -fno-inline) -c $here/$f.cpp -o $out/sim/$f.o || { rm -f $out/sim/$f.o; case $f in wl_common) false;; wl_*) true;; *) false;; esac; }"; done
} | xargs -P "$jobs" -I{} sh -c '{} || exit 255'
wrap=""
for s in malloc calloc realloc free posix_memalign aligned_alloc memcpy memmove memset pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once; do wrap="$wrap -Wl,--wrap=$s"; done
# all the workloads, or as many as can be linked: with a file left out, only its properties have no answer
link() {
    local o="$out/sim/core.o $out/sim/model.o $out/sim/main.o $out/sim/wl_common.o" f l=" $* "
    for f in solvers mat res p12 mm ext own petsc pio; do
        [ -f "$out/sim/wl_$f.o" ] || l="$l$f "
        case "$l" in *" $f "*) continue;; esac
        o="$o $out/sim/wl_$f.o"
    done
    # the simulated PETSc is part of its workloads
    local sut=$(ls "$out"/lib/*.o)
    case "$l" in *" petsc "*) sut=$(echo "$sut" | grep -v '/blasted_petsc\.o$');; esac
    case "$l" in *" petsc "* | *" pio "*) sut=$(echo "$sut" | grep -v '/utils_blasted_petsc_io\.o$\|/utils_cmdoptions\.o$');; esac
    ld -r --force-group-allocation -d -T "$here/sut.ld" -o "$out/sut.o" $sut &&
        g++ -no-pie -o "$out/simrun.tmp" "$out/sut.o" $o $wrap
}
if ! link; then
    ok=""
    for a in none pio petsc own ext mat res mm p12 solvers; do
        for b in none pio petsc own ext mat res mm p12 solvers; do
            for c in none pio petsc; do
                [ -z "$ok" ] && link $a $b $c 2>/dev/null && ok=1
            done
        done
    done
    [ -n "$ok" ] || exit 1
fi
mv "$out/simrun.tmp" "$out/simrun"
