//@struct polynomial/src/lib.rs Polynomial
/// the first n terms of the polynomial at x
pub open spec fn psum(c: Seq<R>, x: real, n: nat) -> real decreases n { if n == 0 { 0real } else { psum(c, x, (n - 1) as nat) + c[n - 1]@ * rpow(x, (n - 1) as nat) } }
pub open spec fn pval(p: Polynomial, x: real) -> real { psum(p.coefficients@, x, p.len as nat) }
pub open spec fn pok(p: Polynomial) -> bool { p.len <= 12 }

//@fn polynomial/src/lib.rs Polynomial::new ()
ensures ret.len == 0,
//@endfn

//@fn polynomial/src/lib.rs Polynomial::is_empty (self)
ensures ret == (self.len == 0),
//@endfn

//@fn polynomial/src/lib.rs Polynomial::push (self, v)
requires old(self).len < 12,
ensures final(self).len == old(self).len + 1, final(self).coefficients@ == old(self).coefficients@.update(old(self).len as int, v),
   final(self).coefficients@[old(self).len as int] == v,
   forall|x: real| #[trigger] pval(*final(self), x) == pval(*old(self), x) + v@ * rpow(x, old(self).len as nat),
//@at end
proof { assert forall|x: real| #[trigger] pval(*self, x) == pval(*old(self), x) + v@ * rpow(x, old(self).len as nat) by { lemma_prefix(self.coefficients@, old(self).coefficients@, x, old(self).len as nat); } }
//@endfn

pub proof fn lemma_prefix(c: Seq<R>, d: Seq<R>, x: real, n: nat)
    requires n <= c.len(), n <= d.len(), forall|i: int| 0 <= i < n ==> c[i] == d[i],
    ensures psum(c, x, n) == psum(d, x, n),
    decreases n,
{ if n > 0 { lemma_prefix(c, d, x, (n - 1) as nat); } }

//@fn polynomial/src/lib.rs Polynomial::len (self)
ensures ret == self.len,
//@endfn

//@fn polynomial/src/lib.rs Polynomial::eval (self, x)
requires pok(*self),
ensures ret@ == pval(*self, x@),
//@locals y
//@loop 0
invariant pok(*self), $n == self.len, y@ == psum(self.coefficients@, x@, $k as nat),
//@endfn
