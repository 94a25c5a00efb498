#!/bin/bash
# runtests.sh REPOCOPY -> exit 0 iff all stable tests pass
R=$1; export HOME=$R/.home; mkdir -p $HOME/Downloads $R/.cli; cp $R/tests/test_cli/expected-*.txt $R/.cli/ 2>/dev/null
export PATH=/opt/venv/bin:$PATH
export PYTHONPATH=$R/src:/verif/dev PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8 MPLCONFIGDIR=/opt/venv/mplconfig
ulimit -v 4000000
P="timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p survplug -c $R/pyproject.toml --rootdir=$R --timeout=40"
cd $R/tests
$P --import-mode=importlib --ignore=test_numeric --ignore=test_cli . >$R/.log 2>&1 || exit 1
$P test_numeric >>$R/.log 2>&1 || exit 1
cd $R/.cli; $P --import-mode=prepend $R/tests/test_cli >>$R/.log 2>&1 || exit 1
