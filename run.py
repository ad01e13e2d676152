#!/opt/venv/bin/python
"""Entry point of the checks.

  run.py check ID [--tier quick|thorough] [--shards N] [--scale X]
  run.py worker ID SHARD NSHARDS OUTDIR      (internal)
  run.py replay FILE
"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
for _k, _v in {"JAX_PLATFORMS": "cpu", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
               "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "XLA_FLAGS":
               "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"}.items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
