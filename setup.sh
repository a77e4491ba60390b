#!/bin/sh
# Nothing to build (pure Python, imported from /repo/src by each check); prove that the
# simulator is deterministic here: the same plans in fresh interpreters with different
# string-hash seeds must give the same event digests.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -Wignore tools/determinism.py --runs "${1:-3}"
