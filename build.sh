# Sourced by check.sh and setup.sh.

export CARGO_NET_OFFLINE=true

# The checkers, with the hooks in /repo enabled.
build_checker() {
    CARGO_TARGET_DIR="$VERIF_DIR/mc/target" \
        RUSTFLAGS="--cfg ethersync_verif --cfg tokio_unstable -Awarnings" \
        cargo build --offline --quiet --manifest-path "$VERIF_DIR/mc/Cargo.toml" ${1:+--bin "$1"}
}

# The program itself, without hooks.
build_daemon() {
    export MC_DAEMON="$VERIF_DIR/mc/target/daemon/debug/ethersync"
    CARGO_TARGET_DIR="$VERIF_DIR/mc/target/daemon" RUSTFLAGS=-Awarnings \
        cargo build --offline --locked --quiet --manifest-path /repo/daemon/Cargo.toml --bin ethersync \
        --config profile.dev.debug=false \
        --config profile.dev.package.pbkdf2.opt-level=3 \
        --config profile.dev.package.sha2.opt-level=3 \
        --config profile.dev.package.hmac.opt-level=3 \
        --config profile.dev.package.digest.opt-level=3
}

# What ends the program at a chosen call.
build_crash() {
    export MC_CRASH_LIB="$VERIF_DIR/mc/target/crash.so"
    gcc -shared -fPIC -O1 -o "$MC_CRASH_LIB" "$VERIF_DIR/mc/crash.c" -ldl
}

# The VS Code extension.
build_extension() {
    export MC_EXTENSION="$VERIF_DIR/mc/target/vscode/extension.js"
    mkdir -p "$VERIF_DIR/mc/target/vscode" &&
        node "$VERIF_DIR/editors/bundle.js" /repo/vscode-plugin/src/extension.ts "$MC_EXTENSION"
}
