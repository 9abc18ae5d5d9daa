prop="C16"
needs="body velocities that need more than six digits in the log"
breaks="the body velocity log of the first run is written with six digits only"
edits=[("src/estimator/inekf_estimator.cpp","""    vel_body_outfile_.open(vel_log_file_ + "_body_frame.txt");
    vel_body_outfile_.precision(dbl::max_digits10);
""","""    vel_body_outfile_.open(vel_log_file_ + "_body_frame.txt");
""")]
