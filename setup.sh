#!/bin/bash
# Nothing to compile: the verifier is Python. Checks the tools and cross-checks the primitive semantics against JAX.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -m jaxvc.selftest
