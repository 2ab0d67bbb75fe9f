#!/bin/bash
# Builds the arithmetic behind the specification and runs its self test.
set -e
cd "$(dirname "$0")"
python3 -c "from vf import core; core.build_java()"
mkdir -p build/meta evidence
cd spec
java -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:autobound.Overrides \
  -cp ../build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -metadir ../build/meta -noGenerateSpecTE -workers 4 -config RealFieldTest.cfg RealFieldTest.tla > ../build/selftest.log
grep -q "No error has been found" ../build/selftest.log
/opt/venv/bin/python -c "import jax, numpy"
echo setup done
