from weights import WITH, VECTORS, OPAQUE
from P07 import STRAT
UNITS = [{'harness': 'h_weights.cpp', 'contracts': WITH + VECTORS, 'opaque': OPAQUE}, {'harness': 'h_part.cpp', 'contracts': [STRAT]}]
