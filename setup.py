"""Builds the extractor and warms the cache of extracted translation units."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import ir
ir.setup()
