#!/bin/bash
# Compiles the driver once so that the build cache is warm; checks rebuild from /repo themselves.
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0, 'lib')
import core; core.build_harness()"
