#!/bin/bash
# Warm-up build; every check also builds what it needs by itself.
cd "$(dirname "$0")" || exit 1
./check --build
