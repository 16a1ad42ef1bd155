#!/usr/bin/env bash
# Usage: check.sh PROPERTY        build the check from /repo's working tree and run it
#        check.sh --replay FILE   run one recorded case again
# Exit 0: held. Exit 1: violation (a VIOLATION line was printed). Anything else: the check
# itself failed.
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR

if [ "${1:-}" = "--replay" ]; then
    file="${2:?replay file}"
    prop="$(sed -n 's/^ *"property": *"\([A-Z][0-9]*\)".*/\1/p' "$file" | head -n 1)"
    args=(--replay "$file")
else
    prop="${1:?property}"
    args=("$prop")
fi

bin=
case "$prop" in
    C01 | C02 | C03 | C04) pkg=vint ;;
    C05 | C06 | C07 | C08 | C09 | C10 | C11 | C12) pkg=vflt ;;
    C13 | C14) pkg=vmem ;;
    C17 | C18 | C19 | C20 | C21 | C22 | C23) pkg=vlibm ;;
    C37) pkg=vlibm bin=vhex ;;
    C38) pkg=vlibm bin=vwide ;;
    C39) pkg=vlibm bin=vstat ;;
    C46 | C47) pkg=vlibm bin=vblk ;;
    C48) pkg=vport bin=vdiv ;;
    C49 | C50) pkg=vport bin=varm ;;
    C51) pkg=vport bin=va64 ;;
    C52) pkg=vport bin=vx87 ;;
    C53) pkg=vport bin=vchk ;;
    C54) pkg=vport bin=vclr ;;
    C24 | C25 | C26 | C27 | C28 | C29 | C30 | C31 | C32 | C33 | C34 | C35) pkg=vmath ;;
    C36) pkg=vcpu ;;
    C15 | C16) pkg=vabi ;;
    C40) pkg=vsym ;;
    C41 | C42 | C44 | C45) pkg=vtest ;;
    *) echo "no check for $prop" >&2; exit 2 ;;
esac
bin="${bin:-$pkg}"

log="$VERIF_DIR/target/build-$prop.log"
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
if [ "$pkg" = vabi ] && ! bash "$VERIF_DIR/tools/abi.sh" >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "building the library with C names failed" >&2
    exit 2
fi
if [ "$pkg" = vsym ] && ! cargo -Zchecksum-freshness build --release --locked -p symcheck \
    --manifest-path /repo/Cargo.toml --target-dir "$VERIF_DIR/target/sym-build" >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "building symcheck failed" >&2
    exit 2
fi
if [ "$prop" = C44 ] && ! cargo -Zchecksum-freshness build --release --locked -p util --no-default-features \
    --features build-mpfr,unstable-float --manifest-path /repo/Cargo.toml --target-dir "$VERIF_DIR/target/util-build" >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "building util failed" >&2
    exit 2
fi
if [ "$prop" = C45 ] && ! cargo -Zchecksum-freshness build --release --locked -p libm-macros \
    --manifest-path /repo/Cargo.toml --target-dir "$VERIF_DIR/target/mac-build" >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "building libm-macros failed" >&2
    exit 2
fi
export VERIF_UTIL="$VERIF_DIR/target/util-build/release/util"
export VERIF_MACROS="$VERIF_DIR/target/mac-build/release/liblibm_macros.so"
if ! cargo -Zchecksum-freshness build --release --manifest-path "$VERIF_DIR/harness/$pkg/Cargo.toml" \
    --bin "$bin" --target-dir "$VERIF_DIR/target" >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    echo "building $pkg failed" >&2
    exit 2
fi
[ "$pkg" = vsym ] && rm -rf "$VERIF_DIR/target/vsym"
exec "$VERIF_DIR/target/release/$bin" "${args[@]}"
