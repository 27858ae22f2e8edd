#!/bin/bash
# nothing to build: check that the interpreter, the code and the monitors load
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore -c '
import metsim.metsim, mon.core, mon.judge, mon.ref, mon.run, mon.scen
mon.run.import_metsim(); print("ready")'
