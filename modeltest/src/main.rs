use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let fs: Vec<(&str, fn(Vec<u64>, usize) -> Vec<u64>)> = vec![
        ("iter_rev", modeltest::t_iter_rev),
        ("enumerate_rev", modeltest::t_enumerate_rev),
        ("zip_rev", modeltest::t_zip_rev),
        ("zip_short", modeltest::t_zip_short),
        ("take_rev", modeltest::t_take_rev),
        ("take_back", modeltest::t_take_back),
        ("skip", modeltest::t_skip),
        ("skip_take", modeltest::t_skip_take),
        ("step", modeltest::t_step),
        ("stepit", modeltest::t_stepit),
        ("chain", modeltest::t_chain),
        ("chunks", modeltest::t_chunks),
        ("chunks_exact", modeltest::t_chunks_exact),
        ("chunks_exact_rev", modeltest::t_chunks_exact_rev),
        ("chunks_rev", modeltest::t_chunks_rev),
        ("chunks_mut", modeltest::t_chunks_mut),
        ("chunks_exact_mut", modeltest::t_chunks_exact_mut),
        ("windows", modeltest::t_windows),
        ("map_sum", modeltest::t_map_sum),
        ("fold", modeltest::t_fold),
        ("fold_rev", modeltest::t_fold_rev),
        ("any", modeltest::t_any),
        ("position", modeltest::t_position),
        ("minmax", modeltest::t_minmax),
        ("minmaxn", modeltest::t_minmaxn),
        ("filter", modeltest::t_filter),
        ("find", modeltest::t_find),
        ("copy_slice", modeltest::t_copy_slice),
        ("clone_slice", modeltest::t_clone_slice),
        ("copy_within", modeltest::t_copy_within),
        ("split", modeltest::t_split),
        ("split_mut", modeltest::t_split_mut),
        ("extend", modeltest::t_extend),
        ("extend_ref", modeltest::t_extend_ref),
        ("truncate", modeltest::t_truncate),
        ("resize", modeltest::t_resize),
        ("pushpop", modeltest::t_pushpop),
        ("clear", modeltest::t_clear),
        ("vec_concat", modeltest::t_vec_concat),
        ("append", modeltest::t_append),
        ("into_iter", modeltest::t_into_iter),
        ("into_take", modeltest::t_into_take),
        ("into_rev", modeltest::t_into_rev),
        ("drain", modeltest::t_drain),
        ("rotate", modeltest::t_rotate),
        ("swaprev", modeltest::t_swaprev),
        ("fill", modeltest::t_fill),
        ("firstlast", modeltest::t_firstlast),
        ("split_first", modeltest::t_split_first),
        ("slice_pat", modeltest::t_slice_pat),
        ("try_into", modeltest::t_try_into),
        ("bytes_le", modeltest::t_bytes_le),
        ("from_bytes", modeltest::t_from_bytes),
        ("swap_bytes", modeltest::t_swap_bytes),
        ("to_le", modeltest::t_to_le),
        ("shifts", modeltest::t_shifts),
        ("rots", modeltest::t_rots),
        ("casts", modeltest::t_casts),
        ("wrapping", modeltest::t_wrapping),
        ("checked", modeltest::t_checked),
        ("overflowing", modeltest::t_overflowing),
        ("saturating", modeltest::t_saturating),
        ("divrem", modeltest::t_divrem),
        ("divvar", modeltest::t_divvar),
        ("bits", modeltest::t_bits),
        ("pow", modeltest::t_pow),
        ("absdiff", modeltest::t_absdiff),
        ("memswap", modeltest::t_memswap),
        ("arr_map", modeltest::t_arr_map),
        ("arr_from_fn", modeltest::t_arr_from_fn),
        ("repeat", modeltest::t_repeat),
        ("opts", modeltest::t_opts),
        ("results", modeltest::t_results),
        ("closure_mut", modeltest::t_closure_mut),
        ("structs", modeltest::t_structs),
        ("enums", modeltest::t_enums),
        ("traits", modeltest::t_traits),
        ("dynfn", modeltest::t_dynfn),
        ("consts", modeltest::t_consts),
        ("while_loops", modeltest::t_while_loops),
        ("ranges", modeltest::t_ranges),
        ("rangeinc", modeltest::t_rangeinc),
        ("peek", modeltest::t_peek),
        ("lastnth", modeltest::t_lastnth),
        ("iter_mut", modeltest::t_iter_mut),
        ("nested", modeltest::t_nested),
        ("arr2", modeltest::t_arr2),
        ("boxes", modeltest::t_boxes),
        ("eqcmp", modeltest::t_eqcmp),
        ("cmpmatch", modeltest::t_cmpmatch),
        ("strs", modeltest::t_strs),
        ("tuples", modeltest::t_tuples),
        ("takewhile", modeltest::t_takewhile),
        ("unzip", modeltest::t_unzip),
        ("scan", modeltest::t_scan),
        ("sortd", modeltest::t_sortd),
        ("index_oob", modeltest::t_index_oob),
        ("slice_oob", modeltest::t_slice_oob),
        ("sub_ovf", modeltest::t_sub_ovf),
        ("unwrap_none", modeltest::t_unwrap_none),
        ("div_zero", modeltest::t_div_zero),
        ("copy_len", modeltest::t_copy_len),
        ("chunk0", modeltest::t_chunk0),
        ("arith_ovf", modeltest::t_arith_ovf),
        ("i64min", modeltest::t_i64min),
        ("neg_ovf", modeltest::t_neg_ovf),
        ("assert_eq", modeltest::t_assert_eq),
        ("split_off", modeltest::t_split_off),
        ("rsplit", modeltest::t_rsplit),
        ("dedicated", modeltest::t_dedicated),
        ("splice", modeltest::t_splice),
        ("flat_map", modeltest::t_flat_map),
        ("flat_map2", modeltest::t_flat_map2),
        ("flatten", modeltest::t_flatten),
        ("once", modeltest::t_once),
        ("cycle", modeltest::t_cycle),
        ("repeat_n", modeltest::t_repeat_n),
        ("resize_with", modeltest::t_resize_with),
        ("successors", modeltest::t_successors),
        ("from_fn", modeltest::t_from_fn),
        ("chunk_try", modeltest::t_chunk_try),
        ("bytes_chunks", modeltest::t_bytes_chunks),
        ("bytes_read", modeltest::t_bytes_read),
        ("bytes_fold", modeltest::t_bytes_fold),
        ("skip_step", modeltest::t_skip_step),
        ("rev_step", modeltest::t_rev_step),
        ("range_rev", modeltest::t_range_rev),
        ("rangeinc_rev", modeltest::t_rangeinc_rev),
        ("range_map", modeltest::t_range_map),
        ("range_fold", modeltest::t_range_fold),
        ("for_each", modeltest::t_for_each),
        ("for_each_mut", modeltest::t_for_each_mut),
        ("zip3", modeltest::t_zip3),
        ("zip_mut", modeltest::t_zip_mut),
        ("div_ceil", modeltest::t_div_ceil),
        ("first_chunk", modeltest::t_first_chunk),
        ("get_range", modeltest::t_get_range),
        ("let_else", modeltest::t_let_else),
        ("matches", modeltest::t_matches),
        ("match_guard", modeltest::t_match_guard),
        ("loop_val", modeltest::t_loop_val),
        ("const_gen", modeltest::t_const_gen),
        ("generic_fn", modeltest::t_generic_fn),
        ("fnmut_ret", modeltest::t_fnmut_ret),
        ("impl_default", modeltest::t_impl_default),
        ("derive_copy", modeltest::t_derive_copy),
        ("op_traits", modeltest::t_op_traits),
        ("wrapping_ty", modeltest::t_wrapping_ty),
        ("iter_impl", modeltest::t_iter_impl),
        ("into_iter_arr", modeltest::t_into_iter_arr),
        ("arr_iter_rev", modeltest::t_arr_iter_rev),
        ("swap_idx", modeltest::t_swap_idx),
        ("copy_ranges", modeltest::t_copy_ranges),
        ("extend_take", modeltest::t_extend_take),
        ("collect_arr", modeltest::t_collect_arr),
        ("vec_vec", modeltest::t_vec_vec),
        ("vec_arr", modeltest::t_vec_arr),
        ("mut_ref_loop", modeltest::t_mut_ref_loop),
        ("ret_tuple", modeltest::t_ret_tuple),
        ("try_from", modeltest::t_try_from),
        ("question", modeltest::t_question),
        ("ite_chain", modeltest::t_ite_chain),
        ("box_slice", modeltest::t_box_slice),
        ("box_arr", modeltest::t_box_arr),
        ("cow", modeltest::t_cow),
        ("rc", modeltest::t_rc),
        ("u128", modeltest::t_u128),
        ("u32s", modeltest::t_u32s),
        ("u32_pair", modeltest::t_u32_pair),
        ("shl_assign", modeltest::t_shl_assign),
        ("bool_arith", modeltest::t_bool_arith),
        ("static_tab", modeltest::t_static_tab),
        ("macro_rot", modeltest::t_macro_rot),
        ("trait_obj", modeltest::t_trait_obj),
        ("fn_ptr", modeltest::t_fn_ptr),
        ("rec", modeltest::t_rec),
        ("rchunks_exact", modeltest::t_rchunks_exact),
        ("sum_prod", modeltest::t_sum_prod),
        ("xor_reduce", modeltest::t_xor_reduce),
        ("rposition", modeltest::t_rposition),
        ("count_filter", modeltest::t_count_filter),
        ("mem_take", modeltest::t_mem_take),
        ("clamp", modeltest::t_clamp),
        ("is_mul", modeltest::t_is_mul),
        ("assert_msg", modeltest::t_assert_msg),
        ("expect", modeltest::t_expect),
        ("unreach", modeltest::t_unreach),
        ("ovf_mul", modeltest::t_ovf_mul),
        ("u8_ovf", modeltest::t_u8_ovf),
        ("shl_ovf", modeltest::t_shl_ovf),
        ("usize_sub", modeltest::t_usize_sub),
        ("slice_end", modeltest::t_slice_end),
        ("slice_rev", modeltest::t_slice_rev),
        ("split_at_p", modeltest::t_split_at_p),
        ("arr_try", modeltest::t_arr_try),
        ("copy_mis", modeltest::t_copy_mis),
        ("rem_zero", modeltest::t_rem_zero),
        ("step0", modeltest::t_step0),
        ("neg_idx", modeltest::t_neg_idx),
        ("sort", modeltest::t_sort),
        ("write_io", modeltest::t_write_io),
        ("read_io", modeltest::t_read_io),
        ("slice_adv", modeltest::t_slice_adv),
        ("slice_adv2", modeltest::t_slice_adv2),
        ("slice_adv3", modeltest::t_slice_adv3),
        ("mut_adv", modeltest::t_mut_adv),
        ("mem_swap_slices", modeltest::t_mem_swap_slices),
        ("as_ref", modeltest::t_as_ref),
        ("into_gen", modeltest::t_into_gen),
        ("iter_gen", modeltest::t_iter_gen),
    ];
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split_whitespace().collect();
        let n: usize = w[1].parse().unwrap();
        let v: Vec<u64> = w[2..].iter().map(|x| x.parse().unwrap()).collect();
        let f = fs.iter().find(|f| f.0 == w[0]).unwrap().1;
        match std::panic::catch_unwind(|| f(v, n)) {
            Ok(o) => println!("ok {}", o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
            Err(_) => println!("panic"),
        }
    }
}
