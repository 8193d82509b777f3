import os

# one thread per process: the workers already use all cores (must be set before numpy is imported)
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
