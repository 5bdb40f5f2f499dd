pub mod sspec {
use vstd::prelude::*;
use crate::vspec::*;
use crate::tensor::Tensor;
use crate::tensor::helper::*;
// Serialized forms: an uninterpreted encoding.  What is assumed about serde and bincode:
// decoding an encoded value gives the same value, and a decoded tensor went through
// Tensor::try_from.  The second fact, and the first one for tensors, hold only while the
// serde attributes say so; `crate::serde_facts` is computed from the source on every run.
pub uninterp spec fn enc<T>(v: T) -> Seq<u8>;
pub uninterp spec fn dec<T>(b: Seq<u8>) -> Option<T>;
pub broadcast axiom fn ax_rt_u32(v: u32) ensures #[trigger] dec::<u32>(enc(v)) == Some(v);
pub broadcast axiom fn ax_rt_string(v: String) ensures dec::<String>(#[trigger] enc(v)) is Some, dec::<String>(enc(v))->0@ == v@;
pub broadcast axiom fn ax_rt_shape(v: TensorShape) requires crate::serde_facts::shape_plain() ensures #[trigger] dec::<TensorShape>(enc(v)) == Some(v);
pub broadcast axiom fn ax_rt_tensor(v: Tensor) requires v.wf(), crate::serde_facts::tensor_plain() ensures dec::<Tensor>(#[trigger] enc(v)) is Some, dec::<Tensor>(enc(v))->0.same(v);
pub broadcast axiom fn ax_rt_tensors(v: Vec<Tensor>) requires crate::lspec::all_wf(v@), crate::serde_facts::tensor_plain() ensures dec::<Vec<Tensor>>(#[trigger] enc(v)) is Some, crate::lspec::same_all(dec::<Vec<Tensor>>(enc(v))->0@, v@);
pub broadcast axiom fn ax_dec_tensor(b: Seq<u8>) requires crate::serde_facts::tensor_validated() ensures #[trigger] dec::<Tensor>(b) is Some ==> dec::<Tensor>(b)->0.wf();
pub broadcast axiom fn ax_dec_tensors(b: Seq<u8>) requires crate::serde_facts::tensor_validated() ensures #[trigger] dec::<Vec<Tensor>>(b) is Some ==> crate::lspec::all_wf(dec::<Vec<Tensor>>(b)->0@);
pub broadcast group serial { ax_rt_u32, ax_rt_string, ax_rt_shape, ax_rt_tensor, ax_rt_tensors, ax_dec_tensor, ax_dec_tensors }
}
