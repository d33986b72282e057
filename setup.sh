#!/bin/bash
# builds the extractor and warms the fact cache (checks do both on demand)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'engine'); sys.setrecursionlimit(20000)
import lib; D=lib.load(); print(len(D.fn),'functions')"
