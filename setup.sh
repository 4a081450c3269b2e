#!/bin/bash
# Nothing to build: the specification and the harness are interpreted.  Parses every module and imports the code under
# test once, so that a broken sandbox shows here.
set -e
cd "$(dirname "$0")"
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY -error-codes "$m" > /tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import scaled'
