prop="C20"
needs="a four-wheel robot whose front and rear wheels on one side turn at different speeds, with the subscriber that also reports the turn rate"
breaks="the left side's speed is averaged over a left and a right wheel"
files=["rosstub"]
edits=[("ROS/drift/src/communication/ros_subscriber.cpp","""  double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
              * wheel_radius;
  double vx = (vr + vl) / 2.0;
  double omega_z""","""  double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[3]) / 2.0
              * wheel_radius;
  double vx = (vr + vl) / 2.0;
  double omega_z""")]
