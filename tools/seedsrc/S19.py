prop="C21"
needs="an orientation that is not a unit quaternion offered to a measurement that already holds one"
breaks="the invalid orientation is rejected only after it has been stored"
edits=[("include/drift/measurement/impl/imu_impl.cpp","""  validate_quat(w, x, y, z);

  quaternion_.w() = w;
  quaternion_.x() = x;
  quaternion_.y() = y;
  quaternion_.z() = z;
""","""  quaternion_.w() = w;
  quaternion_.x() = x;
  quaternion_.y() = y;
  quaternion_.z() = z;

  validate_quat(w, x, y, z);
""")]
