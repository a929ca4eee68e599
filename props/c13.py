import rot
from registry import Unit
UNITS = [Unit("u_rot.cpp", rot.S13)]
REPLAY = ["c13.cpp"]
ASSUME = rot.ASSUME
