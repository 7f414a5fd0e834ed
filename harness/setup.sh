#!/bin/sh
# Parses every specification module (SANY) and imports the harness; nothing is built or fetched.
set -e
cd "$(dirname "$0")/../spec"
CP=/opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
for m in *.tla; do
  java -cp "$CP" -DTLA-Library=. tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
cd ../harness
/opt/venv/bin/python -c "import sys; sys.dont_write_bytecode = True; import check"
