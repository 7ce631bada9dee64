"""Import this before any module of harmonic_inference that needs torch, lightning or h5py."""
import os
import sys

SHIMS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims")
if SHIMS not in sys.path:
    sys.path.insert(0, SHIMS)

import h5py  # noqa: E402,F401
import torch  # noqa: E402,F401
