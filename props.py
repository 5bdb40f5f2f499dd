"""Which functions of the crate carry which property.

own:    a failed obligation of one of these functions is reported as a violation of the property
        (with a failing input when the search finds one, otherwise no-failing-input-found);
        everything these functions call is verified as well and its result is part of the evidence.
lemmas: proof functions over the contracts that state the property across calls.
"""
T, H, V, L = "tensor::Tensor.", "tensor::helper::", "tensor::operations::convolution::", "layer::"
KIND = {"fc": L + "fully_connected::FullyConnectedLayer.", "conv": L + "convolutional::ConvolutionalLayer.", "pool": L + "max_pool::MaxPoolLayer.", "soft": L + "softmax::SoftmaxLayer."}
def kinds(*names): return [k + n for k in KIND.values() for n in names]
def of(kind, *names): return [KIND[kind] + n for n in names]
def t(*names): return [T + n for n in names]
def h(*names): return [H + n for n in names]
def v(*names): return [V + n for n in names]
SHAPE = h("TensorShape.total_size", "TensorShape.fits_index", "TensorStride.mul", "TensorStride.new_from_shape")
ADDR = t("get_data_index", "get_item", "set_item", "get_shape", "total_items") + SHAPE
GET = ("get_input_shape", "get_output_shape", "get_name", "get_run_mode")
UPD = "update_gradient_and_intermediate_tensors"
SWITCH = ("switch_to_training", "switch_to_inference", UPD)
NET, SN = "network::Network.", "network::SerializedNetwork."
def net(*names): return [NET + n for n in names]
PROPS = {
 "C01": dict(own=ADDR + h("TensorIndex.index_1d", "TensorIndex.index_2d", "TensorIndex.zero") + t("new"), lemmas=["vspec::lem_lin", "vspec::lem_lin1", "vspec::lem_inj", "vspec::lem_inj1", "vspec::lem_surj", "vspec::lem_upd", "clients::c01_write_read", "clients::c01_out_of_range", "clients::c01_write_all"]),
 "C02": dict(own=t("new", "empty", "total_items", "get_shape", "fill_with_value", "fill_with_vec", "fill_with_uniform", "fill_with_gaussian") + h("TensorShape.new", "TensorShape.new_1d", "TensorShape.new_2d", "TensorShape.get", "TensorShape.transpose_ij", "TensorShape.total_size", "TensorShape.checked_total_size", "TensorStride.new_from_shape"), lemmas=["vspec::lem_prod0", "clients::c02_fill"]),
 "C03": dict(own=t("add", "add_to_self", "scale", "scale_self", "multiply_elementwise", "multiply_elementwise_self"), lemmas=["clients::c03_mismatch"]),
 "C04": dict(own=t("matrix_multiply", "matrix_multiply_transpose_first", "matrix_multiply_transpose_second", "transpose_ij", "check_matrix_multiply_dimensions", "get_data_index") + h("TensorStride.mul", "TensorShape.transpose_ij"), lemmas=["vspec::lem_tr", "clients::c04_transposed"]),
 "C05": dict(own=t("matrix_multiply_add_relu", "check_matrix_multiply_dimensions", "get_data_index", "matrix_multiply", "add_to_self", "relu_self_and_store_mask") + h("TensorStride.mul"), lemmas=["clients::c05_fused_is_separate"]),
 "C06": dict(own=t("relu_self_and_store_mask"), lemmas=["clients::c06_twice"]),
 "C07": dict(own=t("does_kernel_stride_fit_image", "get_convolution_dim_fit", "check_max_pooling_dimensions") + h("TensorShape.fits_window") + v("check_convolution_dimensions"), lemmas=["vspec::lem_out", "clients::c07_exact"]),
 "C08": dict(own=v("convolution_bias", "convolution_bias_relu", "check_convolution_dimensions") + h("TensorShape.fits_window") + t("get_item", "get_data_index"), lemmas=["vspec::lem_win", "vspec::lem_upd"]),
 "C09": dict(own=t("max_pool", "max_pool_track_origin", "check_max_pooling_dimensions", "get_item", "set_item", "get_data_index") + h("TensorShape.fits_window"), lemmas=["vspec::lem_pmax", "vspec::lem_porigin", "vspec::lem_wmax_unique", "vspec::lem_win", "clients::c09_same"]),
 "C10": dict(own=t("add_from_index_list"), lemmas=["vspec::lem_scat_frame"]),
 "C11": dict(own=v("convolution_backprop_outgoing_gradient", "check_convolution_dimensions") + t("get_data_index") + h("TensorShape.fits_window"), lemmas=["vspec::lem_cov", "vspec::lem_cov1", "vspec::lem_bo_i_lo", "vspec::lem_bo_i_hi", "vspec::lem_bo_j_lo", "vspec::lem_bo_j_hi"]),
 "C12": dict(own=v("convolution_backprop_kernel", "check_convolution_dimensions") + t("get_data_index") + h("TensorShape.fits_window"), lemmas=["vspec::lem_win"]),
 "C13": dict(own=t("softmax"), lemmas=["vspec::lem_dmax", "vspec::lem_esum", "vspec::lem_max_finite", "vspec::lem_softmax_unit", "vspec::lem_softmax_sum_ge1", "vspec::lem_softmax_order", "vspec::lem_esum_real", "vspec::lem_rsum", "vspec::lem_softmax_sum", "clients::c13_unit"]),
 "C14": dict(own=t("eq", "ne", "get_norm"), lemmas=["clients::c14_ne"]),
 "C15": dict(own=of("fc", "forward", "backward", "clear_gradients", UPD, "switch_to_training", "switch_to_inference", "fill_weights_with_value", "fill_bias_with_value") + t("matrix_multiply_add_relu", "matrix_multiply", "add_to_self", "relu_self_and_store_mask", "matrix_multiply_transpose_first", "matrix_multiply_transpose_second", "multiply_elementwise", "multiply_elementwise_self"), lemmas=["clients::c15_accumulate"]),
 "C16": dict(own=of("conv", "forward", "backward", "clear_gradients", UPD, "switch_to_training", "switch_to_inference") + v("convolution_bias", "convolution_bias_relu", "convolution_backprop_outgoing_gradient", "convolution_backprop_kernel") + t("relu_self_and_store_mask", "multiply_elementwise", "multiply_elementwise_self"), lemmas=["clients::c16_round"]),
 "C17": dict(own=of("pool", "forward", "backward", "clear_gradients", UPD, "switch_to_training", "switch_to_inference") + t("max_pool", "max_pool_track_origin", "add_from_index_list", "fill_with_value"), lemmas=["lspec::lem_origin", "clients::c17_round", "clients::c17_rest_zero"]),
 "C18": dict(own=of("soft", "forward", "backward") + t("softmax", "matrix_multiply", "matrix_multiply_transpose_first", "multiply_elementwise", "multiply_elementwise_self", "add_to_self", "scale_self"), lemmas=["clients::c18_repeat"]),
 "C19": dict(own=kinds("new", "empty", "fill_from_state", UPD, *GET) + h("TensorShape.checked_total_size", "TensorShape.fits_window") + t("does_kernel_stride_fit_image", "get_convolution_dim_fit"), lemmas=["lspec::lem_out_ok", "clients::c19_created"]),
 "C20": dict(own=kinds("switch_to_training", "switch_to_inference", UPD, "backward", "get_run_mode", "clear_gradients"), lemmas=["clients::c20_switch", "clients::c20_refused"]),
 "C21": dict(own=net("new", "add_layer", "get_layers", "get_input_shape", "get_output_shape", "get_intermediate_state", "get_output") + kinds("get_input_shape", "get_output_shape", "switch_to_training", "switch_to_inference"), lemmas=["nspec::lem_same_sized", "clients::c21_chain"]),
 "C22": dict(own=net("infer", "get_output", "get_intermediate_state") + kinds("forward"), lemmas=["nspec::lem_step_kept", "lemmas::lem_fwd_sim", "lemmas::lem_infer_sim", "clients::c22_twice"]),
 "C23": dict(own=net("backward") + kinds("backward"), lemmas=["nspec::lem_back_kept", "nspec::lem_bounds", "clients::c23_train"]),
 "C24": dict(own=net("new", "add_layer", "switch_to_training", "switch_to_inference", "get_run_state") + kinds("switch_to_training", "switch_to_inference", "get_run_mode"), lemmas=["nspec::lem_same_sized", "clients::c24_modes"]),
 "C25": dict(own=kinds("get_serialized", "load_from_serialized", "load_from_serialized_data", "fill_from_state", "get_name", "get_run_mode"), lemmas=["lemmas::lem_fwd_sim", "clients::c25_reload"]),
 "C26": dict(own=net("save_to_file", "load_from_file", "add_layer") + [SN + n for n in ("empty", "populate_network", "new_from_network", "to_byte_array")] + ["layer::SerializedLayer.add_to_network"] + t("save_to_file", "from_file", "try_from") + kinds("get_serialized", "load_from_serialized", "load_from_serialized_data"), lemmas=["nspec::lem_link_next", "nspec::lem_loaded_next", "lemmas::lem_save_load", "clients::c26_reload", "clients::c26_tensor"]),
 "C27": dict(own=net("load_from_file") + [SN + "populate_network", "layer::SerializedLayer.add_to_network"] + t("from_file", "try_from") + kinds("load_from_serialized", "load_from_serialized_data", "fill_from_state") + h("TensorShape.checked_total_size"), lemmas=["nspec::lem_link_next", "clients::c27_loaded_is_consistent"]),
}
