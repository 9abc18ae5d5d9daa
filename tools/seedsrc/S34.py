prop="C17"
needs="the third integral of the exponential at an angle large enough that no series is used, other than one radian"
breaks="the closed form divides by one power of the angle too few"
edits=[("src/math/lie_group.cpp","""(pow(-1, (m + 1) / 2) / pow(theta, m + 1)) * A * (R - S);""","""(pow(-1, (m + 1) / 2) / pow(theta, m)) * A * (R - S);""")]
