#!/usr/bin/env bash
# Build /repo's runtime library as shipped (C names, memory functions) and leave in target/abi:
#   libvb.a       its objects, every symbol prefixed with "vb_" (so that it can be linked next to
#                 the standard library's own copy), the stack probe named vb_probestack
#   symbols.txt   the global definitions of each member, one "type name" per line
set -u
dir="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
out="$dir/target/abi"
mkdir -p "$out"
cargo -Zchecksum-freshness build --manifest-path /repo/Cargo.toml --locked -p compiler_builtins \
    --features compiler-builtins,mem --release --target-dir "$dir/target/abi-build" || exit 2
lib="$dir/target/abi-build/release/libcompiler_builtins.rlib"
[ -f "$lib" ] || { echo "no $lib" >&2; exit 2; }
cmp -s "$lib" "$out/last.rlib" && [ -f "$out/libvb.a" ] && exit 0
work="$(mktemp -d "$out/work.XXXXXX")" || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
# members can share a name, so take them out one by one
python3 - "$lib" <<'P' || exit 2
import sys
d = open(sys.argv[1], 'rb').read()
assert d[:8] == b'!<arch>\n'
p, n = 8, 0
while p + 60 <= len(d):
    size = int(d[p + 48:p + 58])
    body = d[p + 60:p + 60 + size]
    if body[:4] == b'\x7fELF' and body[16] == 1 and body[17] == 0 and body[18:20] == b'\x3e\x00':
        # the metadata member is an object as well, but has no code
        open(f'm{n:04}.o', 'wb').write(body)
        n += 1
    p += 60 + size + (size & 1)
assert n > 0, 'no objects'
P
: >"$out/symbols.txt"
for f in m*.o; do
    nm --defined-only -g --format=posix "$f" 2>/dev/null | awk '{print $2, $1}' >>"$out/symbols.txt"
done
probe="$(awk '$2 ~ /__rust_probestack$/ {print $2}' "$out/symbols.txt" | head -n 1)"
for f in m*.o; do
    if [ -n "$probe" ]; then
        objcopy --redefine-sym "$probe=probestack" "$f" || exit 2
    fi
    objcopy --prefix-symbols=vb_ "$f" || exit 2
done
rm -f "$out/libvb.a"
ar crs "$out/libvb.a" m*.o || exit 2
cp "$lib" "$out/last.rlib"
