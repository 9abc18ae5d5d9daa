prop="C05"
needs="two legs lifting off in the same leg measurement, the one with the lower column first"
breaks="column numbers are read before the first removal shifts them, so the wrong column is marginalised out for the second leg"
edits=[("src/filter/inekf/correction/legged_kinematics_correction.cpp","""  for (int id : remove_contacts) {
    state.del_aug_state(*(aug_id_to_column_id_ptr_[id]));
    aug_id_to_column_id_ptr_.erase(id);
  }
""","""  vector<int> remove_columns;
  for (int id : remove_contacts) {
    remove_columns.push_back(*(aug_id_to_column_id_ptr_[id]));
    aug_id_to_column_id_ptr_.erase(id);
  }
  for (int column : remove_columns) {
    state.del_aug_state(column);
  }
""")]
