W(__gmpz_init) W(__gmpz_init2) W(__gmpz_clear) W(__gmpz_realloc2) W(__gmpz_set) W(__gmpz_set_si) W(__gmpz_set_ui) W(__gmpz_set_str)
W(__gmpz_init_set) W(__gmpz_init_set_si) W(__gmpz_init_set_ui) W(__gmpz_init_set_str) W(__gmpz_swap)
W(__gmpz_get_si) W(__gmpz_get_ui) W(__gmpz_get_str) W(__gmpz_fits_slong_p) W(__gmpz_fits_ulong_p) W(__gmpz_sizeinbase) W(__gmpz_size) W(__gmpz_tstbit)
W(__gmpz_add) W(__gmpz_add_ui) W(__gmpz_sub) W(__gmpz_sub_ui) W(__gmpz_ui_sub) W(__gmpz_mul) W(__gmpz_mul_si) W(__gmpz_mul_ui) W(__gmpz_mul_2exp)
W(__gmpz_addmul) W(__gmpz_addmul_ui) W(__gmpz_submul) W(__gmpz_submul_ui) W(__gmpz_and) W(__gmpz_neg) W(__gmpz_abs)
W(__gmpz_cmp) W(__gmpz_cmp_si) W(__gmpz_cmp_ui) W(__gmpz_cmpabs) W(__gmpz_cmpabs_ui)
W(__gmpz_tdiv_q) W(__gmpz_tdiv_r) W(__gmpz_tdiv_qr) W(__gmpz_fdiv_q) W(__gmpz_fdiv_r) W(__gmpz_fdiv_qr) W(__gmpz_mod)
W(__gmpz_tdiv_q_ui) W(__gmpz_fdiv_q_ui) W(__gmpz_fdiv_r_ui) W(__gmpz_fdiv_ui) W(__gmpz_tdiv_ui) W(__gmpz_tdiv_q_2exp) W(__gmpz_fdiv_q_2exp) W(__gmpz_fdiv_r_2exp) W(__gmpz_tdiv_r_2exp)
W(__gmpz_divexact) W(__gmpz_divexact_ui) W(__gmpz_divisible_p) W(__gmpz_gcd) W(__gmpz_lcm) W(__gmpz_pow_ui) W(__gmpz_gcd_ui)
W(memcmp) W(bcmp)
