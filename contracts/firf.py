"""FIR filtering of real streams."""
from contracts.fir import env as _env
env = lambda: _env('f32')
