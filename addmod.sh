#!/bin/sh
# development helper: register a harness module
grep -q "^$1 = " /verif/harness/Cargo.toml || sed -i "s/^demo = \[\]/demo = []\n$1 = []/" /verif/harness/Cargo.toml
grep -q "\"$1\" $1" /verif/harness/src/lib.rs || sed -i "s/    \"demo\" demo/    \"demo\" demo\n    \"$1\" $1/" /verif/harness/src/lib.rs
