#!/bin/bash
# Nothing to build: the simulator is Python and imports appletree from /repo.  Check that it starts.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); import dst.driver, jax, emcee, h5py, numpy; print('ok')"
