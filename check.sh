#!/bin/bash
# check.sh C01 quick|thorough  --  replay: check.sh replay FILE
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
case "$1" in
  replay|selftest) exec /opt/venv/bin/python -m dsim.main "$@";;
  *) exec /opt/venv/bin/python -m dsim.main check "$@";;
esac
