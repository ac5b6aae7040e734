#!/bin/bash
# nothing to build: checks import the package from /repo's working tree; this only confirms that it can be imported
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "import mon.core; import bayesian_decision_tree as b; print('ok', b.__file__)"
