pub mod nspec {
use vstd::prelude::*;
use crate::vspec::*;
use crate::sspec::*;
use crate::lspec::*;
use crate::tensor::Tensor;
use crate::tensor::helper::*;
use crate::network::*;
use crate::layer::*;

pub open spec fn net_of(b: Seq<u8>) -> Seq<SerializedLayer> { dec::<SerializedNetwork>(b)->0.serial_layers@ }
// two serialized layers hold the same data
pub open spec fn sl_same(a: SerializedLayer, b: SerializedLayer) -> bool { decode(a) == decode(b) && stag(a) == stag(b) }
// decoding an encoded list of serialized layers gives the same list (assumed; only while the serde attributes are the derived ones)
pub axiom fn ax_rt_network(v: SerializedNetwork) requires crate::serde_facts::network_plain()
    ensures dec::<SerializedNetwork>(enc(v)) is Some, net_of(enc(v)).len() == v.serial_layers@.len(), forall|i: int| 0 <= i < v.serial_layers@.len() ==> sl_same(#[trigger] net_of(enc(v))[i], v.serial_layers@[i]);
impl Network {
    pub open spec fn n(&self) -> int { self.layers@.len() as int }
    pub open spec fn lc(&self, i: int) -> LCfg { self.layers@[i].cfg() }
    pub open spec fn link(&self, i: int) -> bool { self.lc(i).ish == self.lc(i - 1).osh }
    // shape at layer boundary i
    pub open spec fn bsh(&self, i: int) -> TensorShape { if i == 0 { self.lc(0).ish } else { self.lc(i - 1).osh } }
    pub open spec fn nb(&self) -> int { if self.n() == 0 { 0 } else { self.n() + 1 } }
    pub open spec fn inv(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].mode() == self.run_state && cfg_ok(self.layers@[i].cfg())
        &&& self.n() > 0 ==> self.input_shape == self.lc(0).ish && self.output_shape == self.lc(self.n() - 1).osh
        &&& forall|i: int| 0 < i < self.n() ==> #[trigger] self.link(i)
        &&& self.intermediate_states@.len() == self.nb()
        &&& forall|i: int| 0 <= i < self.nb() ==> sized(#[trigger] self.intermediate_states@[i], self.bsh(i))
        &&& self.intermediate_gradients@.len() == (if self.run_state == NetworkRunState::Training { self.nb() } else { 0 })
        &&& forall|i: int| 0 <= i < self.intermediate_gradients@.len() ==> sized(#[trigger] self.intermediate_gradients@[i], self.bsh(i))
    }
    // same layers: configuration and kind of every layer
    pub open spec fn same_layers(&self, o: Network) -> bool {
        self.n() == o.n() && forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).cfg() == o.layers@[i].cfg() && self.layers@[i].tag() == o.layers@[i].tag() }
    pub open spec fn same_shapes(&self, o: Network) -> bool { self.input_shape == o.input_shape && self.output_shape == o.output_shape }
    // layer li (of kind t, configuration c) was put behind the layers of o
    pub open spec fn appended(&self, o: Network, c: LCfg, t: int) -> bool {
        &&& self.n() == o.n() + 1
        &&& forall|i: int| 0 <= i < o.n() ==> #[trigger] self.layers@[i] == o.layers@[i]
        &&& self.lc(o.n()) == c && self.layers@[o.n()].tag() == t
        &&& self.run_state == o.run_state
        &&& forall|i: int| 0 <= i < o.intermediate_states@.len() ==> #[trigger] self.intermediate_states@[i] == o.intermediate_states@[i]
        &&& forall|i: int| o.intermediate_states@.len() <= i < self.intermediate_states@.len() ==> (#[trigger] self.intermediate_states@[i]).all_is(0.0f32)
        &&& forall|i: int| 0 <= i < o.intermediate_gradients@.len() ==> #[trigger] self.intermediate_gradients@[i] == o.intermediate_gradients@[i]
        &&& forall|i: int| o.intermediate_gradients@.len() <= i < self.intermediate_gradients@.len() ==> (#[trigger] self.intermediate_gradients@[i]).all_is(0.0f32)
    }
    pub open spec fn accepts(&self, c: LCfg) -> bool { self.n() == 0 || c.ish == self.output_shape }
    // one inference step: state i+1 is what layer i makes of state i
    pub open spec fn stepped(&self, o: Network, i: int) -> bool {
        fwd(o.lc(i), o.run_state, self.intermediate_states@[i], self.intermediate_states@[i + 1])
        && fwd_aux(o.lc(i), o.run_state, self.intermediate_states@[i], self.intermediate_states@[i + 1], o.layers@[i].aux(), self.layers@[i].aux()) }
    // layers keep configuration, kind and mode; states keep their number and shapes
    pub open spec fn step_inv(&self, o: Network, n: int) -> bool {
        &&& self.run_state == o.run_state && self.same_shapes(o) && self.n() == o.n() && o.n() > 0
        &&& forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].cfg() == o.layers@[i].cfg() && self.layers@[i].tag() == o.layers@[i].tag() && self.layers@[i].mode() == o.run_state
        &&& self.intermediate_states@.len() == o.nb() && forall|i: int| 0 <= i < o.nb() ==> sized(#[trigger] self.intermediate_states@[i], o.bsh(i))
    }
    pub open spec fn back_inv(&self, o: Network) -> bool {
        &&& self.run_state == o.run_state && self.same_shapes(o) && self.n() == o.n() && o.n() > 0 && self.intermediate_states@ == o.intermediate_states@
        &&& forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.layers@[i]).inv() && self.layers@[i].cfg() == o.layers@[i].cfg() && self.layers@[i].tag() == o.layers@[i].tag() && self.layers@[i].mode() == o.run_state
        &&& self.intermediate_gradients@.len() == o.nb() && forall|i: int| 0 <= i < o.nb() ==> sized(#[trigger] self.intermediate_gradients@[i], o.bsh(i))
    }
    pub open spec fn back_ok(&self, i: int) -> bool { bwd_ok(self.lc(i), self.run_state, self.bsh(i), self.bsh(i + 1), self.bsh(i + 1), self.bsh(i)) }
    pub open spec fn backed(&self, o: Network, i: int) -> bool {
        bwd(o.lc(i), o.layers@[i].aux(), o.intermediate_states@[i], o.intermediate_states@[i + 1], self.intermediate_gradients@[i + 1], self.intermediate_gradients@[i], self.layers@[i].aux()) }
    // loading a list of serialized layers behind the existing ones
    pub open spec fn chain_ok(&self, sl: Seq<SerializedLayer>, n: int) -> bool {
        forall|i: int| 0 <= i < n ==> #[trigger] self.link_ok(sl, i) }
    pub open spec fn link_ok(&self, sl: Seq<SerializedLayer>, i: int) -> bool {
        decode(sl[i]) is Some && (if i == 0 { self.accepts(decode(sl[i])->0) } else { decode(sl[i])->0.ish == decode(sl[i - 1])->0.osh }) }
    pub open spec fn loaded(&self, o: Network, sl: Seq<SerializedLayer>, n: int) -> bool {
        &&& self.n() == o.n() + n && self.run_state == o.run_state
        &&& forall|i: int| 0 <= i < o.n() ==> #[trigger] self.layers@[i] == o.layers@[i]
        &&& forall|i: int| 0 <= i < n ==> self.loaded_at(o, #[trigger] sl[i], i)
    }
    pub open spec fn loaded_at(&self, o: Network, s: SerializedLayer, i: int) -> bool { decode(s) == Some(self.lc(o.n() + i)) && stag(s) == self.layers@[o.n() + i].tag() }
    pub open spec fn loads(&self, b: Seq<u8>) -> bool { dec::<SerializedNetwork>(b) is Some && self.chain_ok(net_of(b), net_of(b).len() as int) }
    // sl is a serialized form of this network's layers
    pub open spec fn serial_of(&self, sl: Seq<SerializedLayer>) -> bool {
        sl.len() == self.n() && forall|i: int| 0 <= i < self.n() ==> self.serial_at(#[trigger] sl[i], i) }
    pub open spec fn serial_at(&self, s: SerializedLayer, i: int) -> bool { decode(s) is Some && cfg_same(decode(s)->0, self.lc(i)) && stag(s) == self.layers@[i].tag() }
}
// boundary shapes and links only depend on the layers' configurations
pub proof fn lem_same_sized(a: Network, b: Network)
    requires b.same_layers(a)
    ensures forall|i: int| 0 <= i < a.nb() ==> #[trigger] b.bsh(i) == a.bsh(i), forall|i: int| 0 < i < a.n() ==> #[trigger] b.link(i) == a.link(i), forall|i: int| 0 <= i < a.n() ==> #[trigger] b.lc(i) == a.lc(i)
{
    assert forall|i: int| 0 <= i < a.n() implies #[trigger] b.lc(i) == a.lc(i) by { assert(b.layers@[i].cfg() == a.layers@[i].cfg()); }
    assert forall|i: int| 0 < i < a.n() implies #[trigger] b.link(i) == a.link(i) by { assert(b.lc(i) == a.lc(i)); assert(b.lc(i - 1) == a.lc(i - 1)); }
    assert forall|i: int| 0 <= i < a.nb() implies #[trigger] b.bsh(i) == a.bsh(i) by { if i == 0 { assert(b.lc(0) == a.lc(0)); } else { assert(b.lc(i - 1) == a.lc(i - 1)); } }
}
pub proof fn lem_same_sized_all(a: Network)
    ensures forall|b: Network, i: int| b.same_layers(a) && 0 <= i < a.nb() ==> #[trigger] b.bsh(i) == a.bsh(i), forall|b: Network, i: int| b.same_layers(a) && 0 < i < a.n() ==> #[trigger] b.link(i) == a.link(i), forall|b: Network, i: int| b.same_layers(a) && 0 <= i < a.n() ==> #[trigger] b.lc(i) == a.lc(i)
{
    assert forall|b: Network, i: int| b.same_layers(a) && 0 <= i < a.nb() implies #[trigger] b.bsh(i) == a.bsh(i) by { lem_same_sized(a, b); }
    assert forall|b: Network, i: int| b.same_layers(a) && 0 < i < a.n() implies #[trigger] b.link(i) == a.link(i) by { lem_same_sized(a, b); }
    assert forall|b: Network, i: int| b.same_layers(a) && 0 <= i < a.n() implies #[trigger] b.lc(i) == a.lc(i) by { lem_same_sized(a, b); }
}
// the next serialized layer fits exactly when it continues the chain
// the boundaries around layer n have its input and output shape
pub proof fn lem_bounds(o: Network, n: int)
    requires o.inv(), 0 <= n < o.n()
    ensures o.bsh(n) == o.layers@[n].cfg().ish, o.bsh(n + 1) == o.layers@[n].cfg().osh
{ if n > 0 { assert(o.link(n)); } }
// running layer n keeps what the layers before it produced
pub proof fn lem_step_kept(o: Network, a: Network, b: Network, n: int)
    requires 0 <= n < o.n(), a.n() == o.n(), b.n() == o.n(), a.intermediate_states@.len() == o.n() + 1, b.intermediate_states@.len() == o.n() + 1,
        forall|i: int| 0 <= i < o.n() + 1 && i != n + 1 ==> #[trigger] b.intermediate_states@[i] == a.intermediate_states@[i],
        forall|i: int| 0 <= i < o.n() && i != n ==> #[trigger] b.layers@[i] == a.layers@[i],
        forall|i: int| 0 <= i < n ==> #[trigger] a.stepped(o, i),
        b.stepped(o, n)
    ensures forall|i: int| 0 <= i < n + 1 ==> #[trigger] b.stepped(o, i)
{
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] b.stepped(o, i) by { if i < n { assert(a.stepped(o, i)); } }
}
pub proof fn lem_back_kept(o: Network, a: Network, b: Network, n: int)
    requires 0 <= n < o.n(), a.n() == o.n(), b.n() == o.n(), a.intermediate_gradients@.len() == o.n() + 1, b.intermediate_gradients@.len() == o.n() + 1,
        forall|i: int| 0 <= i < o.n() + 1 && i != n ==> #[trigger] b.intermediate_gradients@[i] == a.intermediate_gradients@[i],
        forall|i: int| 0 <= i < o.n() && i != n ==> #[trigger] b.layers@[i] == a.layers@[i],
        forall|i: int| n < i < o.n() ==> #[trigger] a.backed(o, i),
        b.backed(o, n)
    ensures forall|i: int| n <= i < o.n() ==> #[trigger] b.backed(o, i)
{
    assert forall|i: int| n <= i < o.n() implies #[trigger] b.backed(o, i) by { if n < i { assert(a.backed(o, i)); } }
}
pub proof fn lem_link_next(o: Network, a: Network, sl: Seq<SerializedLayer>, n: int)
    requires o.inv(), a.inv(), a.loaded(o, sl, n), 0 <= n < sl.len(), n == 0 ==> a == o
    ensures decode(sl[n]) is Some && a.accepts(decode(sl[n])->0) <==> o.link_ok(sl, n)
{
    if n > 0 { assert(a.loaded_at(o, sl[n - 1], n - 1)); assert(a.n() == o.n() + n); }
}
pub proof fn lem_loaded_next(o: Network, a: Network, b: Network, sl: Seq<SerializedLayer>, n: int)
    requires a.loaded(o, sl, n), 0 <= n < sl.len(), decode(sl[n]) is Some, b.appended(a, decode(sl[n])->0, stag(sl[n])), o.chain_ok(sl, n), o.link_ok(sl, n)
    ensures b.loaded(o, sl, n + 1), o.chain_ok(sl, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 implies b.loaded_at(o, #[trigger] sl[i], i) by { if i < n { assert(a.loaded_at(o, sl[i], i)); assert(b.layers@[o.n() + i] == a.layers@[o.n() + i]); } }
    assert forall|i: int| 0 <= i < o.n() implies #[trigger] b.layers@[i] == o.layers@[i] by { assert(a.layers@[i] == o.layers@[i]); }
}
}
