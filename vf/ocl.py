"""opencamlib, or the stand-in for it where it isn't installed"""
import os
import sys

try:
    import opencamlib
except ImportError:
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "standin"))
    import opencamlib
