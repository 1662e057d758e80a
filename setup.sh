#!/bin/bash
# nothing to install: checks that the tools the checks use are there
set -e
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python -c 'import z3'
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --version
ls "$HOME/.rustup/toolchains/$RUSTUP_TOOLCHAIN/lib/rustlib/x86_64-unknown-linux-gnu/bin/llc" > /dev/null
g++ --version | head -1
mkdir -p evidence .build
