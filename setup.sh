#!/bin/bash
# Builds the extraction tool and the harness's dependencies, offline.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR
(cd tool && cargo build --release --offline)
mkdir -p work/setup evidence
./tool/target/release/vx oracle --repo /repo --base "$PWD" --out work/setup/hooks.rs --meta work/setup/hooks.json --dict work/setup/dict.txt || exit 0
(cd harness && NOM_SPARQL_VERIF_HOOKS="$(dirname "$PWD")/work/setup/hooks.rs" RUSTFLAGS="--cfg nom_sparql_verif -Awarnings" cargo build --release --offline) || true
