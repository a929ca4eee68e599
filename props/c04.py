import scan
UNITS = scan.UNITS4
REPLAY = ["c04.cpp"]
ASSUME = ["the neighbour relation answers symmetrically for indices inside the line and throws outside (C08)", "Range(index) is a fixed non-negative number per point (C08's unit proves Range and the cloud access)",
          "the line holds the padding (size >= padding + 1), padding <= 2^29, at most 2^30 points"]
