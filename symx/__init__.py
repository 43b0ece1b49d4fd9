from .core import *   # noqa
from .harness import *   # noqa
