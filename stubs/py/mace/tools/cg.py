import os
import fakemace
if os.environ.get("FAKE_OLD_MACE"):
    def U_matrix_real(irreps_in, irreps_out, correlation, normalization="component", filter_ir_mid=None, dtype=None): return fakemace.U_matrix(irreps_in, irreps_out, correlation)
else:
    def U_matrix_real(irreps_in, irreps_out, correlation, normalization="component", filter_ir_mid=None, dtype=None, use_cueq_cg=None): return fakemace.U_matrix(irreps_in, irreps_out, correlation)
