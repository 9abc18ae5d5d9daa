prop="C20"
needs="pose and path rates whose ratio is not a whole number with a fraction of at least one half"
breaks="the path is thinned by the rounded instead of the truncated ratio of the rates"
files=["rosstub"]
edits=[("ROS/drift/src/communication/ros_publisher.cpp","""  int pose_skip = pose_publish_rate_
                  / path_publish_rate_;""","""  int pose_skip = pose_publish_rate_
                  / path_publish_rate_ + 0.5;""")]
