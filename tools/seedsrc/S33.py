prop="C07"
needs="a left-invariant filter with orientation uncertainty when a leg touches down"
breaks="the new contact's correlation with the orientation has the wrong sign in the left-invariant convention"
edits=[("src/filter/inekf/correction/legged_kinematics_correction.cpp","""            = skew(-new_contact.pose);""","""            = skew(new_contact.pose);""")]
