#!/bin/bash
# builds the syntax-tree exporter and parses /repo once, so that later checks find a warm cache (they rebuild it when it is missing)
cd "$(dirname "$0")" && python3-vt sa/prog.py
