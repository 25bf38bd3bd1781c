"""Environment in which the code under test is imported."""
import logging, os, sys, warnings

os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("DATAPROFILER_SEED", "0")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import dataprofiler as _dp  # noqa: E402

assert _dp.__file__.startswith(REPO + "/"), _dp.__file__
_dp.set_verbosity(logging.ERROR)
