"""Custom types for annotations."""

from typing import Sequence, Union

import numpy as np

array_like = Union[np.ndarray, Sequence]
