#!/bin/bash
# offline: checks that the specifications typecheck and that the arithmetic they share is right
set -e
cd "$(dirname "$0")"
mkdir -p evidence
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp spec/*.qnt "$d"/
cd "$d"
ls *.qnt | xargs -P 8 -I{} quint typecheck {}
quint test num_test.qnt
quint test gas_test.qnt
quint test odelaw_test.qnt
quint test cycle_test.qnt
