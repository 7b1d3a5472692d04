#!/bin/sh
# nothing to build: the checks import /repo's working tree. Verifies that the tools are present.
set -e
mkdir -p evidence replays
exec env JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import jax, numpy, scipy, equinox, diffrax; print('ok', jax.__version__)"
