# Sourced by ../check: builds, into .build (ignored by git), the simulated
# disk and la's C extension as /repo's working tree has it.  Nothing is ever
# written in /repo.  Results are cached by the hash of their sources.
sim_build() {
    local cache=$SIM_HOME/.build sum tmp
    mkdir -p "$cache" || return 1
    sum=$(sha256sum <"$SIM_HOME/sim/simdisk.c" | cut -c1-16)
    export SIM_DISK_SO=$cache/simdisk-$sum.so
    if [ ! -f "$SIM_DISK_SO" ]; then
        tmp=$(mktemp -d "$cache/tmp.XXXXXX") || return 1
        gcc -O1 -w -shared -fPIC -o "$tmp/s.so" "$SIM_HOME/sim/simdisk.c" -ldl &&
            mv "$tmp/s.so" "$SIM_DISK_SO" || return 1
        rm -rf "$tmp"
    fi
    local pyx=$SIM_REPO/la/src/cflabel.pyx
    export SIM_CFLABEL_SO=
    [ -f "$pyx" ] || return 0
    sum=$(sha256sum <"$pyx" | cut -c1-16)
    if [ ! -f "$cache/cflabel-$sum.so" ]; then
        tmp=$(mktemp -d "$cache/tmp.XXXXXX") || return 1
        cp "$pyx" "$tmp/cflabel.pyx" || return 1
        (cd "$tmp" && "$PY" -m cython cflabel.pyx -o cflabel.c &&
         "$PY" -s -c '
from distutils.core import setup
from distutils.extension import Extension
setup(name="cflabel", ext_modules=[Extension("cflabel", ["cflabel.c"])])
' build_ext --inplace) >"$tmp/log" 2>&1 &&
            mv "$tmp/cflabel.so" "$cache/cflabel-$sum.so" ||
            { cat "$tmp/log" >&2; return 1; }
        rm -rf "$tmp"
    fi
    export SIM_CFLABEL_SO=$cache/cflabel-$sum.so
    # the C source as distributed; if it does not compile it is not installed
    local c=$SIM_REPO/la/src/cflabel.c
    export SIM_CFLABEL_C_SO=
    [ -f "$c" ] || return 0
    sum=$(sha256sum <"$c" | cut -c1-16)
    if [ ! -f "$cache/cflabelc-$sum.so" ]; then
        tmp=$(mktemp -d "$cache/tmp.XXXXXX") || return 1
        cp "$c" "$tmp/cflabel.c" || return 1
        (cd "$tmp" && "$PY" -s -c '
from distutils.core import setup
from distutils.extension import Extension
setup(name="cflabel", ext_modules=[Extension("cflabel", ["cflabel.c"])])
' build_ext --inplace) >"$tmp/log" 2>&1 &&
            mv "$tmp/cflabel.so" "$cache/cflabelc-$sum.so"
        rm -rf "$tmp"
    fi
    [ -f "$cache/cflabelc-$sum.so" ] && export SIM_CFLABEL_C_SO=$cache/cflabelc-$sum.so
    return 0
}
sim_build
