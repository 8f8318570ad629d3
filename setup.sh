#!/bin/bash
# Nothing to build ahead of time: every check builds /repo itself.  Verifies the interpreter only.
exec /opt/venv/bin/python -c 'import numpy, scipy, fitsio, esutil, hpgeom, healsparse'
