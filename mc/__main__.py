import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mc.boot  # noqa: F401,E402
from mc import core  # noqa: E402

# `mc.core` holds process-wide state: keep one copy.
sys.exit(core.main(sys.argv[1:]))
