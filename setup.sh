#!/bin/bash
# Nothing to build: pure Python, everything needed is installed. Check that it imports.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC DATASTORE_EMULATOR_HOST=localhost:8089
mkdir -p "$HERE/evidence" "$HERE/replays"
exec /opt/venv/bin/python -c 'import hypothesis, arroba, dag_cbor, carbox, google.cloud.ndb; print("ok", hypothesis.__version__)'
