//@struct heat/src/glazing.rs Glazing
/// transmittance and reflectances (front, back) of a layer or of a stack of layers
pub struct Og { pub t: real, pub f: real, pub b: real }
pub open spec fn og(g: Glazing) -> Og { Og { t: g.tau@, f: g.rho_front@, b: g.rho_back@ } }
pub open spec fn none() -> Og { Og { t: 1real, f: 0real, b: 0real } }
/// never more light out than in; not a perfect mirror on either side
pub open spec fn ok(g: Og) -> bool { 0real <= g.t && 0real <= g.f < 1real && 0real <= g.b < 1real && g.t + g.f <= 1real && g.t + g.b <= 1real }
/// what is neither transmitted nor reflected is absorbed
pub open spec fn gl(g: Glazing) -> bool { ok(og(g)) && g.tau@ + g.rho_front@ + g.alpha_front@ == 1real && g.tau@ + g.rho_back@ + g.alpha_back@ == 1real }
/// ISO 9050: what the light does between the layers a and b
pub open spec fn den(a: Og, b: Og) -> real { 1real - a.b * b.f }
pub open spec fn comb(a: Og, b: Og) -> Og { Og { t: a.t * b.t / den(a, b), f: a.f + a.t * a.t * b.f / den(a, b), b: b.b + b.t * b.t * a.b / den(a, b) } }
pub open spec fn stack(s: Seq<Glazing>) -> Og decreases s.len() { if s.len() == 0 { none() } else { comb(og(s[0]), stack(s.subrange(1, s.len() as int))) } }
pub open spec fn all_gl(s: Seq<Glazing>) -> bool { forall|i: int| 0 <= i < s.len() ==> gl(#[trigger] s[i]) }
/// light absorbed by m between l (in front) and r (behind) per unit of light arriving from the front
pub open spec fn absd(l: Og, m: Glazing, r: Og) -> real {
    l.t * (m.alpha_front@ * den(og(m), r) + m.alpha_back@ * m.tau@ * r.f) / (den(l, og(m)) * den(og(m), r) - m.tau@ * m.tau@ * l.b * r.f)
}
/// light absorbed by each of the layers
pub open spec fn layer(s: Seq<Glazing>, i: int) -> real { absd(stack(s.subrange(0, i)), s[i], stack(s.subrange(i + 1, s.len() as int))) }
pub open spec fn total(v: Seq<R>) -> real decreases v.len() { if v.len() == 0 { 0real } else { total(v.drop_last()) + v.last()@ } }
/// net light crossing from l to r
pub open spec fn flux(l: Og, r: Og) -> real { l.t * (1real - r.f) / den(l, r) }

