//// struct tensor::Tensor strides: TensorStride; shape: TensorShape; data: Vec<f32>
//// struct tensor::UnvalidatedTensor strides: TensorStride; shape: TensorShape; data: Vec<f32>
//// struct tensor::helper::TensorShape di: u32; dj: u32; dk: u32
//// struct tensor::helper::TensorIndex i: u32; j: u32; k: u32
//// struct tensor::helper::TensorStride i: u32; j: u32; k: u32
//// struct layer::convolutional::ConvolutionalLayer kernels: Vec<Tensor>; biases: Vec<Tensor>; kernel_gradients: Vec<Tensor>; bias_gradients: Vec<Tensor>; stride: u32; relu_mask: Tensor; input_shape: TensorShape; output_shape: TensorShape; name: String; run_state: NetworkRunState
//// struct layer::fully_connected::FullyConnectedLayer weights: Tensor; weights_gradients: Tensor; weights_gradients_intermediate: Tensor; bias: Tensor; bias_gradients: Tensor; relu_mask: Tensor; name: String; run_state: NetworkRunState
//// struct layer::max_pool::MaxPoolLayer input_shape: TensorShape; mask_shape: TensorShape; output_shape: TensorShape; stride: u32; name: String; run_state: NetworkRunState; max_pool_origin: Vec<u32>
//// struct layer::softmax::SoftmaxLayer shape: TensorShape; name: String; intermediate1: Tensor; intermediate2: Tensor; run_state: NetworkRunState
//// struct network::Network layers: Vec<Box<dyn Layer>>; intermediate_states: Vec<Tensor>; intermediate_gradients: Vec<Tensor>; input_shape: TensorShape; output_shape: TensorShape; run_state: NetworkRunState
