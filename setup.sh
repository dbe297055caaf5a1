#!/bin/sh
# Checks build everything they need themselves; this only verifies that the tools are there.
cd "$(dirname "$0")" && for t in clang++-20 ninja python3 /opt/vp/protoc/bin/protoc /opt/vp/protoc-venv/bin/python; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
