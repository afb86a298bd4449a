. /opt/vp/env.sh; export CARGO_TARGET_DIR=/verif/.build; cd /verif/symx; cargo build -p harness --offline 2>&1 | grep -E "^error" -A12| head -${1:-60}
