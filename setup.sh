#!/bin/bash
# Builds the driver and the explorer library.
cd "$(dirname "$0")" || exit 2
./check.sh --setup
