import rot
from registry import Unit
UNITS = [Unit("u_rot.cpp", rot.S16)]
REPLAY = ["c16.cpp"]
ASSUME = rot.ASSUME
