cd /verif; VP_MAXV=${MAXV:-3} timeout 900 python3 mc/run.py "$@" 2>&1 | cut -c1-600 | tail -60
