prop="C18"
needs="only the hind left leg in contact, joints in motion and not mirror-symmetric"
breaks="the initial velocity from the hind left leg uses the hind right leg's Jacobian"
edits=[("src/kinematics/mini_cheetah_kinematics.cpp","J_pLH = Jp_Body_to_HindLeftFoot(encoders_);","J_pLH = Jp_Body_to_HindRightFoot(encoders_);")]
