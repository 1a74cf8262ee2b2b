//@include gas.inc
//@macros polynomial/src/lib.rs
/// a straight line or a constant
pub open spec fn line(p: Polynomial, c0: real, c1: real) -> bool { pok(p) && forall|t: real| #[trigger] pval(p, t) == c0 + c1 * t }
pub proof fn lemma_line(p: Polynomial) requires p.len == 1 || p.len == 2, ensures line(p, p.coefficients@[0]@, if p.len == 2 { p.coefficients@[1]@ } else { 0real }),
{
    assert forall|t: real| #[trigger] pval(p, t) == p.coefficients@[0]@ + (if p.len == 2 { p.coefficients@[1]@ } else { 0real }) * t by {
        let c = p.coefficients@; reveal_with_fuel(psum, 4); reveal_with_fuel(rpow, 4); assert(rpow(t, 0) == 1real); assert(rpow(t, 1) == t * 1real); assert(t * 1real == t); let (a, b) = (c[0]@, c[1]@); assert(a * 1real == a); assert(0real * t == 0real);
        if p.len == 1 { assert(psum(c, t, 1) == psum(c, t, 0) + a * rpow(t, 0)); } else { assert(psum(c, t, 2) == psum(c, t, 1) + b * rpow(t, 1)); assert(psum(c, t, 1) == psum(c, t, 0) + a * rpow(t, 0)); }
    }
}
//@fn heat/src/gas.rs const:AIR ()
ensures ret.mass@ == (2897real / 100real),
   line(ret.thermal_conductivity, (2873real / 1000000real), (97real / 1250000real)),
   line(ret.dynamic_viscosity, (3723real / 1000000000real), (247real / 5000000000real)),
   line(ret.heat_capacity, (1002737real / 1000real), (3081real / 250000real)),
//@loop 0
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 1
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 2
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@at end
proof { lemma_line(vp_ret.thermal_conductivity); lemma_line(vp_ret.dynamic_viscosity); lemma_line(vp_ret.heat_capacity); }
//@endfn

//@fn heat/src/gas.rs const:ARGON ()
ensures ret.mass@ == (9987real / 250real),
   line(ret.thermal_conductivity, (457real / 200000real), (5149real / 100000000real)),
   line(ret.dynamic_viscosity, (3379real / 1000000000real), (6451real / 100000000000real)),
   line(ret.heat_capacity, (1043857real / 2000real), (0real / 1real)),
//@loop 0
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 1
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 2
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@at end
proof { lemma_line(vp_ret.thermal_conductivity); lemma_line(vp_ret.dynamic_viscosity); lemma_line(vp_ret.heat_capacity); }
//@endfn

//@fn heat/src/gas.rs const:KRYPTON ()
ensures ret.mass@ == (419real / 5real),
   line(ret.thermal_conductivity, (9443real / 10000000real), (1413real / 50000000real)),
   line(ret.dynamic_viscosity, (2213real / 1000000000real), (7777real / 100000000000real)),
   line(ret.heat_capacity, (2480907real / 10000real), (0real / 1real)),
//@loop 0
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 1
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 2
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@at end
proof { lemma_line(vp_ret.thermal_conductivity); lemma_line(vp_ret.dynamic_viscosity); lemma_line(vp_ret.heat_capacity); }
//@endfn

//@fn heat/src/gas.rs const:XENON ()
ensures ret.mass@ == (1313real / 10real),
   line(ret.thermal_conductivity, (2269real / 5000000real), (1723real / 100000000real)),
   line(ret.dynamic_viscosity, (1069real / 1000000000real), (3707real / 50000000000real)),
   line(ret.heat_capacity, (1583397real / 10000real), (0real / 1real)),
//@loop 0
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 1
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@loop 2
invariant len <= 12, i <= len, len == given_coefs@.len(), coefficients@.len() == 12, forall|j: int| 0 <= j < i ==> #[trigger] coefficients@[j] == given_coefs@[j],
decreases len - i,
//@at end
proof { lemma_line(vp_ret.thermal_conductivity); lemma_line(vp_ret.dynamic_viscosity); lemma_line(vp_ret.heat_capacity); }
//@endfn

