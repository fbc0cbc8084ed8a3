"""Imports fairseq2 from /repo/src without its compiled bindings."""
import os
import sys
import types
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
_src = os.path.join(REPO, "src")
if _src in sys.path:
    sys.path.remove(_src)
sys.path.insert(0, _src)

_stub = types.ModuleType("fairseq2n")
_stub.DOC_MODE = True
_stub.__version__ = "0.0"
sys.modules["fairseq2n"] = _stub

import torch  # noqa: E402

torch.set_num_threads(1)
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import fairseq2  # noqa: E402

_where = os.path.realpath(os.path.dirname(fairseq2.__file__))
assert _where == os.path.realpath(os.path.join(_src, "fairseq2")), _where
