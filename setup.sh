#!/bin/bash
# Parses every specification and compiles the driver: nothing is installed, nothing is kept outside /verif.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
ls specs/*.tla | xargs -P 6 -n 4 java -DTLA-Library=specs -cp $JARS tla2sany.SANY -error-codes > evidence/sany.txt 2>&1 || { cat evidence/sany.txt; exit 1; }
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import ast, glob
for f in glob.glob("vf/**/*.py", recursive=True) + ["check.py"]:
    ast.parse(open(f).read(), f)
PY
echo setup ok
