#!/bin/bash
# builds the engine (checks build everything else they need from /repo at run time)
cd "$(dirname "$0")" && python3 -c "
import run
print(run.build_engine())"
