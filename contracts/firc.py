"""FIR filtering of complex streams."""
from contracts.fir import env as _env
env = lambda: _env('c64')
