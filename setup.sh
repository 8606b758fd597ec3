#!/bin/sh
# Nothing is compiled: the specifications are TLA+ (TLC is pre-installed), the drivers import /repo directly.
set -e
cd /verif
mkdir -p evidence out
python3 -B - <<'P'
import sys; sys.path[:0] = ["/verif/lib", "/verif/checks"]
import kit, registry
print(len(registry.CHECKS), "checks registered")
P
java -version 2>&1 | head -1
/opt/venv-pb5/bin/python -c "import opentelemetry.sdk.trace"
