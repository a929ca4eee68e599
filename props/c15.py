"""C15 the optimiser's outcome."""
from run import *

UNITS = [Unit("u_run.cpp", [Run(), CalcUpdate(), WUpdate(), Degenerate(), Converged(), Errors(), Normalize(), Weights(), DHuber()], incs=ALG)]
REPLAY = ["c15.cpp"]
ASSUME = ["the matching problem is any function of the pose giving two lists of one length whose i-th Jacobian has 7 columns and as many rows as the i-th residual; at least one residual when the loop body runs is not assumed (no residuals give the 'no residual' outcome)",
          "real arithmetic in place of double", "iteration limit not negative",
          "Scale (C10), MakeM (C12) and AngleAxisToQuaternion (C16) through contracts proved there over the real types",
          "Eigen's matrices and quaternions satisfy the contract of matrix algebra (units/stubs/algebra, irvc/algebra.py); Cholesky solves and eigenvalues are exact"]
