V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export PATH=/usr/local/bin:/root/.cargo/bin:${PATH:-/usr/bin:/bin}
export RUSTUP_TOOLCHAIN=nightly-2024-12-15
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$V/.build/target"
unset RUSTFLAGS
