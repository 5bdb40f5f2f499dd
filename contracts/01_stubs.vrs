// Stand-ins for the parts of std and of the dependencies the crate calls, with the contracts
// assumed about them.  All of them are trusted and listed in the evidence.
pub mod stubs {
use vstd::prelude::*;
use crate::fax::*;
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub mod cmp { use vstd::prelude::*;
  pub fn max(a: u32, b: u32) -> (r: u32) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
  pub fn min(a: u32, b: u32) -> (r: u32) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
}
pub mod fconst { use vstd::prelude::*; use crate::fax::*;
  #[verifier::external_body] pub fn neg_infinity() -> (r: f32) ensures r == ninf() { f32::NEG_INFINITY }
  #[verifier::external_body] pub fn infinity() -> f32 { f32::INFINITY }
  #[verifier::external_body] pub fn max() -> f32 { f32::MAX }
  #[verifier::external_body] pub fn min() -> f32 { f32::MIN }
  #[verifier::external_body] pub fn epsilon() -> f32 { f32::EPSILON }
  #[verifier::external_body] pub fn nan() -> (r: f32) ensures fnan(r) { f32::NAN }
  #[verifier::external_body] pub fn min_positive() -> f32 { f32::MIN_POSITIVE }
}
// the code must not get here
#[verifier::external_body] pub fn vpanic<A>() -> A requires false { unimplemented!() }
pub trait VToString { spec fn chars(&self) -> Seq<char>; fn vto_string(&self) -> (r: String) ensures r@ == self.chars(); }
impl VToString for String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vto_string(&self) -> (r: String) { self.clone() } }
impl VToString for str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vto_string(&self) -> (r: String) { self.to_owned() } }
pub struct VErr { pub x: u8 }
pub fn verr() -> VErr { VErr { x: 0 } }
pub mod keys { use vstd::prelude::*; use vstd::std_specs::hash::obeys_key_model;
  pub broadcast axiom fn k1() ensures #[trigger] obeys_key_model::<crate::layer::fully_connected::FullyConnectedSerialKeys>();
  pub broadcast axiom fn k2() ensures #[trigger] obeys_key_model::<crate::layer::convolutional::ConvolutionalSerialKeys>();
  pub broadcast axiom fn k3() ensures #[trigger] obeys_key_model::<crate::layer::max_pool::MaxPoolSerialKeys>();
  pub broadcast axiom fn k4() ensures #[trigger] obeys_key_model::<crate::layer::softmax::SoftMaxSerialKeys>();
  pub broadcast group key_axioms { k1, k2, k3, k4 }
}
// random numbers: a sample lies in the support of its distribution
pub mod rand { use vstd::prelude::*; use crate::fax::*;
  pub trait Support { spec fn can(&self, x: f32) -> bool; }
  pub mod distributions { use vstd::prelude::*; use crate::fax::*;
    #[derive(Clone, Copy)] pub struct Uniform { pub lo: f32, pub hi: f32 }
    impl super::Support for Uniform { open spec fn can(&self, x: f32) -> bool { !fgt(self.lo, x) && !fgt(x, self.hi) && !fnan(x) } }
    impl Uniform {
      #[verifier::external_body] pub fn new_inclusive(lo: f32, hi: f32) -> (r: Uniform)
        requires ffinite(lo), ffinite(hi), !fgt(lo, hi), ffinite(fsub(hi, lo)) ensures r.lo == lo, r.hi == hi { unimplemented!() }
    }
  }
  pub mod prelude { use vstd::prelude::*; use super::Support;
    pub struct ThreadRng { pub x: u8 }
    #[verifier::external_body] pub fn thread_rng() -> ThreadRng { unimplemented!() }
    impl ThreadRng { #[verifier::external_body] pub fn sample<D: Support>(&mut self, d: D) -> (r: f32) ensures d.can(r) { unimplemented!() } }
  }
  pub fn thread_rng() -> prelude::ThreadRng { prelude::thread_rng() }
}
pub mod rand_distr { use vstd::prelude::*; use crate::fax::*;
  #[derive(Clone, Copy)] pub struct Normal { pub mean: f32, pub dev: f32 }
  #[derive(Debug)] pub struct NormalError { pub x: u8 }
  impl crate::stubs::rand::Support for Normal { open spec fn can(&self, x: f32) -> bool { true } }
  impl Normal { #[verifier::external_body] pub fn new(mean: f32, dev: f32) -> (r: Result<Normal, NormalError>) ensures ffinite(dev) ==> r is Ok { unimplemented!() } }
}
// serialization: an uninterpreted encoding; round-trip facts are in 03_serial.vrs
pub mod bincode { use vstd::prelude::*; use crate::sspec::*;
  #[derive(Debug)] pub struct Error { pub x: u8 }
  #[verifier::external_body] pub fn serialize<T>(v: &T) -> (r: Result<Vec<u8>, Error>) ensures r is Ok, r->Ok_0@ == enc(*v) { unimplemented!() }
  #[verifier::external_body] pub fn deserialize<T>(b: &[u8]) -> (r: Result<T, Error>) ensures (r is Ok) == (dec::<T>(b@) is Some), r is Ok ==> r->Ok_0 == dec::<T>(b@)->0 { unimplemented!() }
}
#[verifier::external_body] pub fn box_layer<T: crate::layer::Layer + 'static>(l: T) -> (r: Box<dyn crate::layer::Layer>) ensures r.inv() == l.inv(), r.cfg() == l.cfg(), r.aux() == l.aux(), r.mode() == l.mode(), r.tag() == l.tag() { unimplemented!() }
// files: a ghost file system is not modelled; what is read is unconstrained bytes
pub mod fs { use vstd::prelude::*;
  #[derive(Debug)] pub struct IoError { pub x: u8 }
  pub uninterp spec fn written(name: Seq<char>, bytes: Seq<u8>) -> bool;
  pub uninterp spec fn readable(name: Seq<char>, bytes: Seq<u8>) -> bool;
  pub uninterp spec fn write_fails(name: Seq<char>) -> bool;
  pub uninterp spec fn read_fails(name: Seq<char>) -> bool;
  #[verifier::external_body] pub fn write(name: &String, bytes: Vec<u8>) -> (r: Result<(), IoError>) ensures r is Ok ==> written(name@, bytes@), r is Err ==> write_fails(name@) { unimplemented!() }
  #[verifier::external_body] pub fn read(name: &String) -> (r: Result<Vec<u8>, IoError>) ensures r is Ok ==> readable(name@, r->Ok_0@), r is Err ==> read_fails(name@) { unimplemented!() }
}
}
