#!/bin/bash
# builds the IR extractor and the polyhedral core into /verif/build (no network)
cd "$(dirname "$0")" && exec python3 rules/build.py
