import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh                     # noqa: E402
from vh import Monitor, Skip  # noqa: E402,F401
