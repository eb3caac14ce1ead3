# Sourced by check, replay and setup.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export HOME=${HOME:-/root}
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
TARGET=$VERIF/target
export RUSTC_WRAPPER=$VERIF/bin/rustc-step
SEED=${VERIF_SEED:-1}

die() { echo "HARNESS-ERROR $*"; exit 2; }

# Cargo judges staleness by modification times; a tree restored by git or cp
# can carry old ones. Whenever the content of /repo's sources differs from
# what a target directory was last built from, its crates are rebuilt.
fresh() { # target-dir manifest crates...
    local dir=$1 manifest=$2 sum; shift 2
    sum=$(cd /repo && find src evaluation/src Cargo.toml evaluation/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    mkdir -p "$dir"
    if [ "$(cat "$dir/.repo-sum" 2>/dev/null)" != "$sum" ]; then
        local c
        for c in "$@"; do
            cargo clean --offline --release --manifest-path "$manifest" --target-dir "$dir" -p "$c" >/dev/null 2>&1
        done
        echo "$sum" > "$dir/.repo-sum"
    fi
}

build_main() {
    fresh "$TARGET/main" "$VERIF/sim/Cargo.toml" hyperloglogplus hll_ship hll_step
    cargo build --release --offline --manifest-path "$VERIF/sim/Cargo.toml" --target-dir "$TARGET/main" \
        > "$TARGET/main.log" 2>&1
}

build_variants() {
    fresh "$TARGET/variants" "$VERIF/sim/Cargo.toml" hyperloglogplus hll_ship hll_step hll_cl hll_ns hll_nscl
    cargo build --release --offline --manifest-path "$VERIF/sim/Cargo.toml" --features variants \
        --target-dir "$TARGET/variants" > "$TARGET/variants.log" 2>&1
}

build_evl() {
    fresh "$TARGET/evl" "$VERIF/evl/Cargo.toml" evl hyperloglogplus
    gcc -O2 -shared -fPIC -o "$TARGET/shim.so.new" "$VERIF/evl/shim.c" -ldl -lpthread > "$TARGET/shim.log" 2>&1 \
        && mv "$TARGET/shim.so.new" "$TARGET/shim.so" || die "shim: $(cat "$TARGET/shim.log")"
    cargo build --release --offline --manifest-path "$VERIF/evl/Cargo.toml" --target-dir "$TARGET/evl" \
        > "$TARGET/evl.log" 2>&1
}

EVL_ARGS=(--evl "$TARGET/evl/release/evl" --shim "$TARGET/shim.so" --scratch "$TARGET/scratch")
