#!/bin/bash
# builds the extractor (the checks build it on demand too)
cd "$(dirname "$0")/.." && python3-vt vc/check.py --setup
