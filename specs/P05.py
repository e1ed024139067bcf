from indices import UNITS as IDX
from weights import WITHOUT, OPAQUE
UNITS = IDX + [{'harness': 'h_weights.cpp', 'contracts': WITHOUT, 'opaque': OPAQUE}]
