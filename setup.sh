#!/bin/bash
# Build the driver and the facts once (every check rebuilds them when they are missing or stale).
cd "$(dirname "$0")" || exit 2
exec python3 engine/facts.py
