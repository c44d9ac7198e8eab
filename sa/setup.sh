#!/bin/bash
# builds the MIR extractor and its inputs (each check does the same if needed)
cd "$(dirname "$0")/.." && mkdir -p build evidence && bash sa/extract.sh build/all.json
