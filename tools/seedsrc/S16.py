prop="C17"
needs="an exponential of an extended pose with a rotation part below a thousandth of a radian but far from zero (fast sampling, small corrections)"
breaks="such rotations are treated as zero: the first-order terms are lost"
edits=[("src/math/lie_group.cpp","const double TOLERANCE = 1e-10;","const double TOLERANCE = 1e-5;")]
