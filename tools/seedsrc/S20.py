prop="C22"
needs="a configuration that sets the gyroscope bias noise but leaves out the accelerometer bias noise"
breaks="the missing accelerometer bias noise follows the gyroscope's entry instead of its own default"
edits=[("src/filter/inekf/propagation/imu_propagation.cpp","""            ? config_["noises"]["accelerometer_bias_std"].as<double>()
            : 0.1;""","""            ? config_["noises"]["accelerometer_bias_std"].as<double>()
            : gyro_bias_std;""")]
