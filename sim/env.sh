# environment of every simulated run: one thread, one kernel set, fixed hash seed, no bytecode in /repo
export PATH=/opt/pypyvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export VERIF_REPO=${VERIF_REPO:-/repo}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export SIM_PY=/opt/pypyvenv/bin/python
