#!/bin/sh
cd "$(dirname "$0")/.." && python3-vt gen/props.py && python3-vt gen/findings.py && python3-vt gen/manifest.py
cd "$(dirname "$0")/.." && python3-vt gen/design.py
