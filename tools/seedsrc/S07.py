prop="C07"
needs="a filter with left-invariant error and a correction whose innovation changes position while the covariance is already correlated"
breaks="the covariance is mapped back to the left-invariant error with the state before the correction"
edits=[("src/filter/inekf/inekf.cpp","""        = lie_group::Adjoint_SEK3(state.get_Xinv());
    P_new = (""","""        = lie_group::Adjoint_SEK3(X.inverse());
    P_new = (""")]
