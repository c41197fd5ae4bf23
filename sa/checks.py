"""The obligations of every property."""
from .chk_num import *            # noqa: F401,F403
from .chk_io import *             # noqa: F401,F403
from . import chk_io2, chk_io3, chk_eff, chk_conv, chk_pick, chk_par, chk_api
