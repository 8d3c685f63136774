# Environment of every check: the same interpreter and settings as the test suite, single-threaded numerics
export HOME=${HOME:-/root} LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${DST_HASHSEED:-0}
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TF_CPP_MIN_LOG_LEVEL=3
unset PYTHONPATH
export DST_PY=/opt/venv/bin/python
