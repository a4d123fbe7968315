#!/bin/bash
# Builds the driver and warms the dependency build; checks also do this on demand.
cd "$(dirname "$0")" || exit 1
exec python3 engine/facts.py
