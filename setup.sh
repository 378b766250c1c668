#!/bin/bash
# Checks the Java override of spec/BigNum.tla against its TLA+ definitions, and that every module parses.
cd "$(dirname "$0")" || exit 2
T=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
javac -cp "$T" -d "$d" java/BigNum.java || exit 2
cp spec/*.tla spec/*.cfg "$d" || exit 2
sed 's/MODULE BigNum /MODULE BigNumPure /' spec/BigNum.tla > "$d/BigNumPure.tla"
cd "$d" || exit 2
timeout 900 java -XX:+UseParallelGC -cp "$d:$T" tlc2.TLC -workers 8 -metadir "$d/meta" -config SelfTest_BigNum.cfg SelfTest_BigNum.tla > out.txt 2>&1
rc=$?
tail -n 6 out.txt
grep -q "No error has been found" out.txt || { tail -n 40 out.txt; exit 2; }
exit $rc
