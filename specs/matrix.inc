//@mono T=R
//@macros matrix/src/lib.rs
//@struct matrix/src/generic_matrix.rs GenericMatrix keepgen
pub type Matrix = GenericMatrix<R>;
/// #[derive(Clone)]
impl GenericMatrix<R> { #[verifier::external_body] pub fn clone(&self) -> (r: GenericMatrix<R>) ensures r == *self { unimplemented!() } }
//@fn matrix/src/traits.rs Float:OneZero:zero ()
ensures ret@ == 0real,
//@endfn
//@fn matrix/src/traits.rs Float:OneZero:one ()
ensures ret@ == 1real,
//@endfn
/// as many values as positions
pub open spec fn mwf(m: &GenericMatrix<R>) -> bool { m.data@.len() == m.nrows * m.ncols && m.nrows * m.ncols <= usize::MAX }
pub open spec fn at(m: &GenericMatrix<R>, i: int, j: int) -> real { m.data@[m.ncols * i + j]@ }
pub open spec fn isin(m: &GenericMatrix<R>, i: int, j: int) -> bool { 0 <= i < m.nrows && 0 <= j < m.ncols }
pub open spec fn same_size(a: &GenericMatrix<R>, b: &GenericMatrix<R>) -> bool { a.nrows == b.nrows && a.ncols == b.ncols }
/// element-wise: every value of r is the given function of those of a and b at the same position
pub open spec fn dot(a: &GenericMatrix<R>, b: &GenericMatrix<R>, i: int, j: int, n: nat) -> real decreases n {
    if n == 0 { 0real } else { dot(a, b, i, j, (n - 1) as nat) + at(a, i, n - 1) * at(b, n - 1, j) }
}
pub proof fn lemma_idx(r: int, c: int, i: int, j: int)
    requires 0 <= i < r, 0 <= j < c
    ensures 0 <= c * i + j < r * c, c * i <= c * (r - 1), 0 <= c * i
{
    assert(c * i + j < r * c) by (nonlinear_arith) requires 0 <= i < r, 0 <= j < c;
    assert(c * i >= 0) by (nonlinear_arith) requires 0 <= i, 0 <= c;
    assert(c * i <= c * (r - 1)) by (nonlinear_arith) requires i <= r - 1, 0 <= c;
}
/// positions do not overlap
pub proof fn lemma_inj(c: int, i: int, j: int, p: int, q: int)
    requires 0 <= j < c, 0 <= q < c, c * i + j == c * p + q
    ensures i == p, j == q
{
    assert(i == p) by (nonlinear_arith) requires 0 <= j < c, 0 <= q < c, c * i + j == c * p + q;
}
/// every position of the data belongs to one row and column
pub proof fn lemma_pos(r: int, c: int, k: int) -> (q: (int, int))
    requires 0 <= k < r * c, c > 0, r >= 0
    ensures 0 <= q.0 < r, 0 <= q.1 < c, k == c * q.0 + q.1
{
    let i = k / c; let j = k % c;
    assert(k == c * i + j && 0 <= j < c) by (nonlinear_arith) requires i == k / c, j == k % c, c > 0;
    assert(0 <= i < r) by (nonlinear_arith) requires k == c * i + j, 0 <= j < c, 0 <= k < r * c, c > 0;
    (i, j)
}
//@fn matrix/src/generic_matrix.rs GenericMatrix::from_data (nrows, ncols, data)
requires nrows * ncols <= usize::MAX, data@.len() == nrows * ncols,
ensures ret.nrows == nrows, ret.ncols == ncols, ret.data@ == data@, mwf(&ret),
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix::new (v, nrows, ncols)
requires nrows * ncols <= usize::MAX,
ensures ret.nrows == nrows, ret.ncols == ncols, mwf(&ret),
   forall|i: int, j: int| isin(&ret, i, j) ==> #[trigger] at(&ret, i, j) == v@,
//@at end
proof { assert forall|i: int, j: int| isin(&vp_ret, i, j) implies #[trigger] at(&vp_ret, i, j) == v@ by { lemma_idx(nrows as int, ncols as int, i, j); } }
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix::size (self)
ensures ret == (self.nrows, self.ncols),
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix::index (self, nrow, ncol)
requires mwf(self), nrow < self.nrows, ncol < self.ncols,
ensures ret == self.ncols * nrow + ncol, ret < self.data@.len(),
//@at start
proof { lemma_idx(self.nrows as int, self.ncols as int, nrow as int, ncol as int); }
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix::get (self, nrow, ncol)
requires mwf(self),
ensures ret is Ok == (nrow < self.nrows && ncol < self.ncols), ret is Ok ==> ret->Ok_0@ == at(self, nrow as int, ncol as int),
//@endfn
/// the position (p, q) got the value v and nothing else changed
pub open spec fn updated(a: &GenericMatrix<R>, b: &GenericMatrix<R>, p: int, q: int, v: real) -> bool {
    same_size(a, b) && mwf(b) && at(b, p, q) == v && forall|i: int, j: int| isin(a, i, j) && !(i == p && j == q) ==> #[trigger] at(b, i, j) == at(a, i, j)
}
pub proof fn lemma_updated(a: &GenericMatrix<R>, b: &GenericMatrix<R>, p: int, q: int, x: R)
    requires mwf(a), isin(a, p, q), same_size(a, b), b.data@ == a.data@.update(a.ncols * p + q, x)
    ensures updated(a, b, p, q, x@)
{
    lemma_idx(a.nrows as int, a.ncols as int, p, q);
    assert forall|i: int, j: int| isin(a, i, j) && !(i == p && j == q) implies #[trigger] at(b, i, j) == at(a, i, j) by {
        lemma_idx(a.nrows as int, a.ncols as int, i, j);
        if a.ncols * i + j == a.ncols * p + q { lemma_inj(a.ncols as int, i, j, p, q); }
    }
}
//@fn matrix/src/generic_matrix.rs GenericMatrix::set (self, nrow, ncol, v)
requires mwf(old(self)),
ensures ret is Ok == (nrow < old(self).nrows && ncol < old(self).ncols), ret is Err ==> *final(self) == *old(self),
   ret is Ok ==> ret->Ok_0 == v && updated(old(self), final(self), nrow as int, ncol as int, v@),
//@at start
proof { if nrow < self.nrows && ncol < self.ncols { lemma_idx(self.nrows as int, self.ncols as int, nrow as int, ncol as int); } }
//@at end
proof { if vp_ret is Ok { lemma_updated(old(self), self, nrow as int, ncol as int, v); } }
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix:MulAssign<T>:mul_assign (self, s) as=vp_mul_assign
requires mwf(old(self)),
ensures mwf(final(self)), same_size(old(self), final(self)),
   forall|i: int, j: int| isin(old(self), i, j) ==> #[trigger] at(final(self), i, j) == at(old(self), i, j) * s@,
//@loop 0
invariant $n == self.data@.len(), self.data@.len() == old(self).data@.len(), same_size(old(self), self), mwf(old(self)),
  forall|k: int| 0 <= k < $k ==> (#[trigger] self.data@[k])@ == old(self).data@[k]@ * s@,
  forall|k: int| $k <= k < $n ==> #[trigger] self.data@[k] == old(self).data@[k],
//@at end
proof { assert forall|i: int, j: int| isin(old(self), i, j) implies #[trigger] at(self, i, j) == at(old(self), i, j) * s@ by { lemma_idx(old(self).nrows as int, old(self).ncols as int, i, j); } }
//@endfn
