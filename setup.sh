#!/bin/bash
# builds the MIR dumper, both MIR dumps and the probe binaries (checks rebuild them when missing or stale)
cd "$(dirname "$0")"
python3-vt - <<'P'
import sys
sys.path.insert(0, "dv")
import dump, probe
for c in dump.CONFIGS:
    dump.dump(c)
    probe.build(c)
P
