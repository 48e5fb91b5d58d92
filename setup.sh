#!/bin/bash
# Warms the build cache; the checks rebuild what they need themselves.
cd "$(dirname "$0")" && ./run.sh --build-only
