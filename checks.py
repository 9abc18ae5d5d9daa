"""Which harness decides which property, and how it is built."""
CHECKS = {}
NOT_APPLICABLE = {}

SEQ_TECH = ("model checking of the implementation: stateless exhaustive enumeration of all bounded operation sequences, "
            "inputs and configurations of the real code, each step compared with a reference model")
SEQ_NOTE = ("Every execution within the bounds stated in the evidence is run on the real library code compiled from /repo. "
            "Values outside the stated alphabets and longer histories are not covered. Trusted: the reference model in mc/, "
            "floating-point tolerances there, compiler, Eigen, yaml-cpp.")


def seq(prop, harness=None, technique=SEQ_TECH, note=SEQ_NOTE, **kw):
    CHECKS[prop] = dict(harness=[harness or f"{prop}.cpp"], technique=technique, note=note, **kw)


seq("C01")
seq("C02")
seq("C03")
seq("C04")
seq("C06")
seq("C05")
seq("C07")
seq("C08")
seq("C09")
seq("C11")
seq("C10")
seq("C12")
seq("C14")
seq("C17")
seq("C18")
seq("C19")
seq("C21")
seq("C20", inc=["-I{here}/stubs/rosstub", "-I{repo}/ROS/drift/include"],
    extra_lib=["{repo}/ROS/drift/src/communication/ros_subscriber.cpp", "{repo}/ROS/drift/src/communication/ros_publisher.cpp"])
seq("C22")
seq("C23", inc=["-I{repo}/baselines/include"], extra_lib=["{repo}/baselines/src/wheel_odometry/wheel_odometry.cpp"])

CONC_TECH = ("stateless model checking of the real multi-threaded code under a controlled scheduler: every schedule with at most the "
             "stated number of preemptions is executed, with happens-before race detection, deadlock and livelock detection, and the "
             "outcome compared with the set an explicit-state reference model allows")
CONC_NOTE = ("Schedules switch threads before mutex, atomic-flag, thread-creation/join and sleep operations; because all other accesses are "
             "checked to be race-free, this covers all interleavings with that many preemptions (sequentially consistent memory; acquire/release "
             "edges are honoured by the race detector). A waiting loop that changed nothing is not repeated until something it read changes. "
             "Trusted: mc/conc.cpp, the reference model, the compiler's -fsanitize=thread instrumentation.")
WRAP = ("malloc free calloc realloc memcpy memmove memset nanosleep clock_nanosleep usleep sleep __cxa_guard_acquire __cxa_guard_release "
        "_ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode "
        "_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv _ZNSo9_M_insertIdEERSoT_ "
        "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l _ZNSo5flushEv").split()
CONC = dict(variant="conc", technique=CONC_TECH, note=CONC_NOTE, schedules=True,
            libflags="-O2 -fsanitize=thread -ftrivial-auto-var-init=uninitialized", hflags="-O2 -fsanitize=thread -ftrivial-auto-var-init=uninitialized",
            raw=["{here}/mc/conc.cpp"], ldflags_pre="-no-pie", ldflags=" ".join("-Wl,--wrap=" + w for w in WRAP))


def conc(prop, preemptions, **kw):
    CHECKS[prop] = dict(CONC, preemptions=preemptions, harness=[f"{prop}.cpp"], **kw)


conc("C13", preemptions=(3, 4), inc=["-I{here}/stubs/rosstub", "-I{repo}/ROS/drift/include"],
     extra_lib=["{repo}/ROS/drift/src/communication/ros_subscriber.cpp", "{repo}/ROS/drift/src/communication/ros_publisher.cpp"])

conc("C16", preemptions=(3, 4))
conc("C15", preemptions=(4, 5))
