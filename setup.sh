#!/usr/bin/env bash
# Prebuild the harness. Every check builds what it needs by itself, so this only saves time.
set -u
dir="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo --version || exit 2
export VERIF_DIR="$dir"
bash "$dir/tools/abi.sh" || exit 2
cargo -Zchecksum-freshness build --release --locked -p symcheck --manifest-path /repo/Cargo.toml --target-dir "$dir/target/sym-build" || exit 2
cargo -Zchecksum-freshness build --release --locked -p util --no-default-features --features build-mpfr,unstable-float --manifest-path /repo/Cargo.toml --target-dir "$dir/target/util-build" || exit 2
cargo -Zchecksum-freshness build --release --locked -p libm-macros --manifest-path /repo/Cargo.toml --target-dir "$dir/target/mac-build" || exit 2
for pkg in vint vflt vmem vlibm vmath vcpu vabi vsym vtest vport; do
    cargo -Zchecksum-freshness build --release --manifest-path "$dir/harness/$pkg/Cargo.toml" --target-dir "$dir/target" --keep-going || echo "$pkg was not built; its checks will say why"
done
