prop="C19"
needs="an augmented column that no correction tracks, or a contact removed while at least two later ones are tracked; process noise of the contacts must differ"
breaks="removing an augmented vector removes the last process-noise block instead of its own"
edits=[("src/state/robot_state.cpp","""  int dim = this->dimQc();
  int idx_cov = 3 + 3 * (matrix_idx - 3);
  RemoveRowAndColumn(Qc_, idx_cov, 3);
""","""  int dim = this->dimQc();
  int idx_cov = std::max(3 + 3 * (matrix_idx - 3), dim - this->dimTheta() - 3);
  RemoveRowAndColumn(Qc_, idx_cov, 3);
""")]
