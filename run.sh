#!/bin/bash
# run.sh ID [quick|thorough]   build from /repo's current tree and run one check
# run.sh replay FILE           run one saved case again
# run.sh setup                 build everything
# Exit: 0 held, 1 violated (VIOLATION line), 2 the machinery itself failed.
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VH_ROOT="$root"
repo=/repo
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
case ":$PATH:" in *:/root/.cargo/bin:*) ;; *) PATH="/root/.cargo/bin:$PATH" ;; esac
export PATH RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CHANOMARC VH_ONLY VH_SCALE VH_FUZZ_BIN RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
for v in $(compgen -e | grep '^PROPTEST_'); do unset "$v"; done

id="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
target="$root/target"
mkdir -p "$target"
log="$target/build-$$.log"

give_up() {
    cat "$log" >&2
    echo "cannot build: $1" >&2
    rm -f "$log"
    exit 2
}

build_harness() {
    (cd "$root/harness" && cargo build --offline --locked --target-dir "$target/harness") >"$log" 2>&1 ||
        (cd "$root/harness" && cargo build --offline --target-dir "$target/harness") >"$log" 2>&1 || give_up harness
}
build_fuzz() {
    (cd "$root/fuzz" && RUSTC_WRAPPER="$root/fuzz/instrument.sh" cargo build --offline --target-dir "$target/fuzz") >"$log" 2>&1 ||
        give_up "the fuzzer"
    export VH_FUZZ_BIN="$target/fuzz/debug/vh-fuzz"
}
build_bins() {
    (cd "$repo" && cargo build --offline --bins --target-dir "$target/repo") >"$log" 2>&1 || give_up "the command line programs"
}
build_py() {
    (cd "$repo/bindings/python3" && PYO3_PYTHON="$VH_PY" cargo build --offline --features pyo3/extension-module --target-dir "$target/python3") \
        >"$log" 2>&1 || give_up "the Python extension"
    mkdir -p "$target/pypath/chanoma"
    cp "$repo/bindings/python3/chanoma/"*.py "$target/pypath/chanoma/" &&
        cp "$target/python3/debug/libchanoma_py.so" "$target/pypath/chanoma/chanoma.so.new" &&
        mv "$target/pypath/chanoma/chanoma.so.new" "$target/pypath/chanoma/chanoma.so" || give_up "the Python package"
}

export VH_PY=/opt/vp/pyvenv/bin/python3
[ -x "$VH_PY" ] || VH_PY="$(command -v python3)"
export VH_PYPATH="$target/pypath" VH_SERVER="$root/harness/server.py" PYTHONDONTWRITEBYTECODE=1
export VH_BIN_CHANOMA="$target/repo/debug/chanoma" VH_BIN_OUTPUT="$target/repo/debug/output"

what="$id"
if [ "$id" = replay ]; then
    what="$(grep -o '"property": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')"
fi
build_harness
case "$what" in
C05 | C14 | C16 | C19 | C21) build_bins ;;
C17) build_py ;;
setup)
    build_bins
    build_py
    ;;
esac
[ "$tier" = thorough ] && [ "$id" != replay ] && [ "$id" != setup ] && build_fuzz
rm -f "$log"
[ "$id" = setup ] && exit 0

vh="$target/harness/debug/vh"
# address space: a runaway allocation ends the check, not the sandbox
ulimit -v $((24 * 1024 * 1024)) 2>/dev/null
if [ "$id" = replay ]; then
    exec timeout -k 10 600 "$vh" replay "$2"
fi
limit=840
exec timeout -k 10 "$limit" "$vh" check "$id" --tier "$tier"
