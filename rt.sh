#!/bin/bash
# runs /verif/rt/run.py under the interpreter and environment of the code
. /opt/vp/env.sh
exec /opt/venv39/bin/python "$(dirname "$0")/rt/run.py" "$@"
