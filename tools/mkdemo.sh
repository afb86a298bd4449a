#!/bin/bash
# usage: mkdemo.sh ID   write a demo.sh that compiles main.rs beside it against /repo's crates
D=/verif/seeded/$1
cat > $D/demo.sh <<'X'
#!/bin/bash
# cwd: /repo. Compiles main.rs beside this script against the crates here and runs it.
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"; cp "$HERE/main.rs" "$S/src/main.rs"
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
powdr-number = { path = "$REPO/number" }
powdr-constraint-solver = { path = "$REPO/constraint-solver" }
powdr-expression = { path = "$REPO/expression" }
powdr-autoprecompiles = { path = "$REPO/autoprecompiles" }
powdr-openvm-bus-interaction-handler = { path = "$REPO/openvm-bus-interaction-handler" }
itertools = "0.14"
serde = { version = "1", features = ["derive"] }
T
export CARGO_TARGET_DIR="$S/target" CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
cd "$S" && cargo run --offline -q
X
