prop="C05"
needs="two legs lifting off in the same leg sample, the one with the smaller number having the smaller column"
breaks="the columns to remove are noted before any is removed, so the second removal takes out the wrong column"
edits=[("src/filter/inekf/correction/legged_kinematics_correction.cpp","""  for (int id : remove_contacts) {
    state.del_aug_state(*(aug_id_to_column_id_ptr_[id]));
    aug_id_to_column_id_ptr_.erase(id);
  }
""","""  vector<int> remove_columns;
  for (int id : remove_contacts) {
    remove_columns.push_back(*(aug_id_to_column_id_ptr_[id]));
  }
  for (int i = 0; i < remove_contacts.size(); i++) {
    state.del_aug_state(std::min(remove_columns[i], state.dimX() - 1));
    aug_id_to_column_id_ptr_.erase(remove_contacts[i]);
  }
""")]
