#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "import json; json.load(open('MANIFEST.json')); print('ok')"
