#!/bin/bash
# newseed.sh ID PROPERTY: makes /verif/seeded/ID from the diff in /tmp/we and demo.rs on stdin
H=$(cd "$(dirname "$0")/.." && pwd); S=$H/seeded/$1; mkdir -p $S
cp $H/tools/seedtmpl/* $S/
git -C /tmp/we diff > $S/patch.diff; git -C /tmp/we checkout -q -- .
cat > $S/demo.rs
