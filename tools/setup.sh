#!/bin/bash
# Builds the Java realisation of Flt.tla into /verif/build (ignored by git).
cd "$(dirname "$0")/.." || exit 1
mkdir -p build
javac -cp /opt/veriftools/tla/tla2tools.jar -d build spec/java/Flt.java
