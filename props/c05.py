import scan
UNITS = scan.UNITS5
REPLAY = ["c05.cpp"]
ASSUME = ["Range(index) is a fixed non-negative number per point (C08's unit proves Range and the cloud access)", "for the parallel-beam mark every range is positive, and the ratio's rounding to float is treated as exact",
          "1 to 2^30 points in the line"]
