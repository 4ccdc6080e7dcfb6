#!/bin/bash
# Builds the harness and the programs once, so that the checks only rebuild what changed.
cd "$(dirname "$0")/../harness" && cargo build --offline -q --bins || exit 1
cd /repo && CARGO_TARGET_DIR="$OLDPWD/target/repo" cargo build --offline -q -p nora_scp -p nora_sshd --config 'profile.dev.package."*".opt-level=1'
