include!("base.rs");
table!(doc::h_any, doc::h_ascii, tab::t_lines, tab::t_names, gen::t_doc, gen::t_mixed, gen::t_date, lay::e_lines, gen::t_again, gen::h_again, gen::l_again, set::s_set, set::s_doc, set::s_hist, ctor::c_date, ctor::c_int, ctor::c_clock, ctor::c_sign, ctor::c_str, ctor::c_two, ctor::c_part, ctor::c_parse, ctor::c_text, ctor::c_from, ctor::c_valid, ctor::c_i64, ctor::c_bool, lay::w_two, lay::k_doc, lay::k_lines, lay::k_names, lay::k_join, lay::n_key, doc::r_ascii, doc::r_doc, doc::r_lines, doc::p_cut, doc::p_doc, eq::q_two, big::b_doc, big::b_use, big::b_set, big::b_tree, big::b_rest, big::b_again, big::b_key, near::e_doc, near::e_use, near::e_tree, near::e_date, near::e_set, gen::l_chain, set::s_same);
