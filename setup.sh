#!/bin/sh
# Build every driver once; checks rebuild what changed in /repo.
cd "$(dirname "$0")" && exec python3 -B -c "
import sys; sys.path.insert(0, 'lib')
import vlib, os
vlib.build(sorted(d for d in os.listdir('harness/drivers') if d.startswith('drv-')))"
