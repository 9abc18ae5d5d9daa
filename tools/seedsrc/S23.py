prop="C08"
needs="bias estimation on and a covariance in which the yaw-rate bias is correlated with the motion (after turning)"
breaks="only the row of the yaw-rate bias is cleared after a correction, leaving an asymmetric covariance"
edits=[("src/filter/inekf/inekf.cpp","""  P_new.col(dimP - dimTheta + 2).setZero();
""","")]
