#!/bin/bash
# Builds the MIR dump driver into /verif/build (git-ignored).  Offline; needs only the nightly
# toolchain with rustc-dev.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/mirdump ] || [ mirdump/main.rs -nt build/mirdump ]; then
    rustc +nightly -O --edition 2021 mirdump/main.rs -o "build/mirdump.$$"
    mv "build/mirdump.$$" build/mirdump
fi
