export LD_LIBRARY_PATH=/opt/venv/lib JAX_PLATFORMS=cpu MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR=${TMPDIR:-/tmp}/vp_mpl PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TF_CPP_MIN_LOG_LEVEL=3 OPENBLAS_NUM_THREADS=1 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
