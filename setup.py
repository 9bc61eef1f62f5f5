import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine")]
sys.dont_write_bytecode = True
from facts import extract
print(extract())
