//@struct matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix keepgen
pub open spec fn hs(n: usize) -> int { (n - 1) / 2 }
pub open spec fn odd(n: usize) -> bool { n >= 1 && n % 2 == 1 }
/// columns skipped and values stored in a row of an n-diagonal matrix
pub open spec fn zb(n: usize, row: int) -> int { if row < hs(n) { 0 } else { row - hs(n) } }
pub open spec fn cnt(n: usize, row: int, ncols: int) -> int {
    let last = if row + hs(n) + 1 < ncols { row + hs(n) + 1 } else { ncols };
    if last > zb(n, row) { last - zb(n, row) } else { 0 }
}
pub open spec fn dacc(n: usize, row: nat, ncols: int) -> int decreases row { if row == 0 { 0 } else { dacc(n, (row - 1) as nat, ncols) + cnt(n, row - 1, ncols) } }
pub proof fn lemma_dacc(n: usize, p: nat, q: nat, ncols: int)
    requires p <= q, odd(n), ncols >= 0
    ensures dacc(n, p, ncols) <= dacc(n, q, ncols), 0 <= dacc(n, p, ncols), p < q ==> dacc(n, p, ncols) + cnt(n, p as int, ncols) <= dacc(n, q, ncols), dacc(n, q, ncols) <= q * ncols
    decreases q
{
    if q > 0 {
        assert((q - 1) * ncols + ncols == q * ncols) by (nonlinear_arith);
        if p < q { lemma_dacc(n, p, (q - 1) as nat, ncols); } else { lemma_dacc(n, (p - 1) as nat, (q - 1) as nat, ncols); }
    } else { assert(0 * ncols == 0) by (nonlinear_arith); }
}
pub open spec fn dwf<const N: usize>(m: &NDiagGenericMatrix<N, R>) -> bool {
    odd(N) && m.data@.len() == dacc(N, m.nrows as nat, m.ncols as int) && m.nrows * m.ncols <= usize::MAX && m.nrows + N <= usize::MAX && m.ncols + N <= usize::MAX
}
pub open spec fn indiag(n: usize, i: int, j: int) -> bool { j + hs(n) >= i && j <= i + hs(n) }
/// the value at (i, j): the stored one, or zero outside the diagonals
pub open spec fn dat<const N: usize>(m: &NDiagGenericMatrix<N, R>, i: int, j: int) -> real {
    if indiag(N, i, j) { m.data@[dpos(m, i, j)]@ } else { 0real }
}
pub open spec fn dpos<const N: usize>(m: &NDiagGenericMatrix<N, R>, i: int, j: int) -> int { dacc(N, i as nat, m.ncols as int) + j - zb(N, i) }
pub open spec fn din<const N: usize>(m: &NDiagGenericMatrix<N, R>, i: int, j: int) -> bool { 0 <= i < m.nrows && 0 <= j < m.ncols }
pub open spec fn dsame<const N: usize>(a: &NDiagGenericMatrix<N, R>, b: &NDiagGenericMatrix<N, R>) -> bool { a.nrows == b.nrows && a.ncols == b.ncols }
pub proof fn lemma_dpos<const N: usize>(m: &NDiagGenericMatrix<N, R>, i: int, j: int)
    requires dwf(m), din(m, i, j), indiag(N, i, j)
    ensures 0 <= dpos(m, i, j) < m.data@.len(), zb(N, i) <= j < zb(N, i) + cnt(N, i, m.ncols as int)
{
    lemma_dacc(N, i as nat, m.nrows as nat, m.ncols as int);
}
pub proof fn lemma_dinj<const N: usize>(m: &NDiagGenericMatrix<N, R>, i: int, j: int, p: int, q: int)
    requires dwf(m), din(m, i, j), indiag(N, i, j), din(m, p, q), indiag(N, p, q), dpos(m, i, j) == dpos(m, p, q)
    ensures i == p, j == q
{
    lemma_dpos(m, i, j); lemma_dpos(m, p, q);
    if i < p { lemma_dacc(N, i as nat, p as nat, m.ncols as int); } else if p < i { lemma_dacc(N, p as nat, i as nat, m.ncols as int); }
}
pub open spec fn dupdated<const N: usize>(a: &NDiagGenericMatrix<N, R>, b: &NDiagGenericMatrix<N, R>, p: int, q: int, v: real) -> bool {
    dsame(a, b) && dwf(b) && dat(b, p, q) == v && forall|i: int, j: int| din(a, i, j) && !(i == p && j == q) ==> #[trigger] dat(b, i, j) == dat(a, i, j)
}
pub proof fn lemma_dupdated<const N: usize>(a: &NDiagGenericMatrix<N, R>, b: &NDiagGenericMatrix<N, R>, p: int, q: int, x: R)
    requires dwf(a), din(a, p, q), indiag(N, p, q), dsame(a, b), b.data@ == a.data@.update(dpos(a, p, q), x)
    ensures dupdated(a, b, p, q, x@)
{
    lemma_dpos(a, p, q);
    assert forall|i: int, j: int| din(a, i, j) && !(i == p && j == q) implies #[trigger] dat(b, i, j) == dat(a, i, j) by {
        if indiag(N, i, j) { lemma_dpos(a, i, j); if dpos(a, i, j) == dpos(a, p, q) { lemma_dinj(a, i, j, p, q); } }
    }
}
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::validate_n ()
requires odd(N),
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::zeroes_before (row)
requires odd(N),
ensures ret == zb(N, row as int),
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::n_in_row (row, ncols)
requires odd(N), row + N <= usize::MAX,
ensures ret == cnt(N, row as int, ncols as int),
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::acc_n_in_row (row, ncols)
requires odd(N), row + N <= usize::MAX, row * ncols <= usize::MAX,
ensures ret == dacc(N, row as nat, ncols as int),
//@loop 0
invariant $n == row, odd(N), row + N <= usize::MAX, row * ncols <= usize::MAX, n == dacc(N, $k as nat, ncols as int),
//@at loop 0 start
proof { lemma_dacc(N, ($k + 1) as nat, $n as nat, ncols as int); }
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::is_diag_value (nrow, ncol)
requires odd(N), nrow + N <= usize::MAX, ncol + N <= usize::MAX,
ensures ret == indiag(N, nrow as int, ncol as int),
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::new (v, nrows, ncols)
requires odd(N), nrows + N <= usize::MAX, ncols + N <= usize::MAX, nrows * ncols <= usize::MAX,
ensures dwf(&ret), ret.nrows == nrows, ret.ncols == ncols, forall|i: int, j: int| din(&ret, i, j) && indiag(N, i, j) ==> #[trigger] dat(&ret, i, j) == v@,
//@at end
proof { assert forall|i: int, j: int| din(&vp_ret, i, j) && indiag(N, i, j) implies #[trigger] dat(&vp_ret, i, j) == v@ by { lemma_dpos(&vp_ret, i, j); } }
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::copy_from (self, other)
requires dwf(old(self)), dwf(other), dsame(old(self), other),
ensures dwf(final(self)), dsame(old(self), final(self)), forall|i: int, j: int| din(other, i, j) ==> #[trigger] dat(final(self), i, j) == dat(other, i, j),
//@at end
proof { assert forall|i: int, j: int| din(other, i, j) implies #[trigger] dat(self, i, j) == dat(other, i, j) by { if indiag(N, i, j) { lemma_dpos(other, i, j); } } }
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::index (self, nrow, ncol)
requires dwf(self), nrow < self.nrows, ncol < self.ncols,
ensures ret is Ok == indiag(N, nrow as int, ncol as int), ret is Ok ==> ret->Ok_0 == dpos(self, nrow as int, ncol as int) && ret->Ok_0 < self.data@.len(),
//@at start
proof { if indiag(N, nrow as int, ncol as int) { lemma_dpos(self, nrow as int, ncol as int); lemma_dacc(N, nrow as nat, self.nrows as nat, self.ncols as int); }
  lemma_dacc(N, 0, nrow as nat, self.ncols as int);
  assert(nrow * self.ncols + self.ncols <= self.nrows * self.ncols) by (nonlinear_arith) requires nrow + 1 <= self.nrows; }
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::size (self)
ensures ret == (self.nrows, self.ncols),
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::get (self, nrow, ncol)
requires dwf(self),
ensures ret is Ok == (nrow < self.nrows && ncol < self.ncols), ret is Ok ==> ret->Ok_0@ == dat(self, nrow as int, ncol as int),
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::set (self, nrow, ncol, v)
requires dwf(old(self)),
ensures ret is Ok == (nrow < old(self).nrows && ncol < old(self).ncols && indiag(N, nrow as int, ncol as int)), ret is Err ==> *final(self) == *old(self),
   ret is Ok ==> dupdated(old(self), final(self), nrow as int, ncol as int, v@),
//@at end
proof { if vp_ret is Ok { lemma_dupdated(old(self), self, nrow as int, ncol as int, v); } }
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::add_to_element (self, nrow, ncol, v)
requires dwf(old(self)),
ensures ret is Ok == (nrow < old(self).nrows && ncol < old(self).ncols && indiag(N, nrow as int, ncol as int)), ret is Err ==> *final(self) == *old(self),
   ret is Ok ==> dupdated(old(self), final(self), nrow as int, ncol as int, dat(old(self), nrow as int, ncol as int) + v@),
//@at end
proof { if vp_ret is Ok { lemma_dupdated(old(self), self, nrow as int, ncol as int, self.data@[dpos(self, nrow as int, ncol as int)]); } }
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::scale_element (self, nrow, ncol, v)
requires dwf(old(self)),
ensures ret is Ok == (nrow < old(self).nrows && ncol < old(self).ncols && indiag(N, nrow as int, ncol as int)), ret is Err ==> *final(self) == *old(self),
   ret is Ok ==> dupdated(old(self), final(self), nrow as int, ncol as int, dat(old(self), nrow as int, ncol as int) * v@),
//@at end
proof { if vp_ret is Ok { lemma_dupdated(old(self), self, nrow as int, ncol as int, self.data@[dpos(self, nrow as int, ncol as int)]); } }
//@endfn
/// row i times the vector x, columns before n
pub open spec fn ddot<const N: usize>(m: &NDiagGenericMatrix<N, R>, x: Seq<R>, i: int, n: nat) -> real decreases n {
    if n == 0 { 0real } else { ddot(m, x, i, (n - 1) as nat) + dat(m, i, n - 1) * x[n - 1]@ }
}
pub proof fn lemma_ddot_zero<const N: usize>(m: &NDiagGenericMatrix<N, R>, x: Seq<R>, i: int, p: nat, q: nat)
    requires p <= q, forall|j: int| p <= j < q ==> !(#[trigger] indiag(N, i, j))
    ensures ddot(m, x, i, p) == ddot(m, x, i, q)
    decreases q
{ if p < q { lemma_ddot_zero(m, x, i, p, (q - 1) as nat); let y = x[q - 1]@; assert(0real * y == 0real) by (nonlinear_arith); assert(!indiag(N, i, q - 1)); } }
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::column_prod_into (self, vec, into) loops=2
requires dwf(self), self.nrows == self.ncols,
ensures final(into)@.len() == old(into)@.len(), ret is Ok == (vec@.len() == self.ncols && old(into)@.len() == self.ncols), ret is Err ==> final(into)@ == old(into)@,
   ret is Ok ==> forall|i: int| 0 <= i < self.nrows ==> (#[trigger] final(into)@[i])@ == ddot(self, vec@, i, self.ncols as nat),
//@loop 0
invariant $n == into@.len(), into@.len() == old(into)@.len(), vec@.len() == self.ncols, into@.len() == self.ncols, dwf(self), self.nrows == self.ncols, acc == dacc(N, $k as nat, self.ncols as int),
  forall|i: int| 0 <= i < $k ==> (#[trigger] into@[i])@ == ddot(self, vec@, i, self.ncols as nat),
//@at loop 0 start
let ghost into0 = into@;
proof { lemma_dacc(N, $k as nat, self.nrows as nat, self.ncols as int); if indiag(N, $k as int, 0) { } 
  lemma_ddot_zero(self, vec@, $k as int, 0, zb(N, $k as int) as nat); lemma_ddot_zero(self, vec@, $k as int, (zb(N, $k as int) + cnt(N, $k as int, self.ncols as int)) as nat, self.ncols as nat); }
//@loop 1
invariant $n == non_zeroes, odd(N), dwf(self), row < self.nrows, non_zeroes == cnt(N, row as int, self.ncols as int), this_data@.len() == non_zeroes, other_data@.len() == non_zeroes, ini == zb(N, row as int), ini + non_zeroes <= self.ncols, vec@.len() == self.ncols,
  forall|i: int| 0 <= i < non_zeroes ==> this_data@[i] == self.data@[dacc(N, row as nat, self.ncols as int) + i],
  forall|i: int| 0 <= i < non_zeroes ==> other_data@[i] == vec@[ini + i],
  (*item)@ == ddot(self, vec@, row as int, (ini + $k) as nat),
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix::scale_into (self, s, into)
requires dwf(self), dwf(old(into)),
ensures ret is Ok == dsame(self, old(into)), ret is Err ==> *final(into) == *old(into), dsame(old(into), final(into)), dwf(final(into)),
   ret is Ok ==> forall|i: int, j: int| din(self, i, j) ==> #[trigger] dat(final(into), i, j) == dat(self, i, j) * s@,
//@loop 0
invariant $n == self.data@.len(), $n == into.data@.len(), dsame(self, into), dsame(old(into), into), dwf(self), dwf(old(into)),
  forall|k: int| 0 <= k < $k ==> (#[trigger] into.data@[k])@ == self.data@[k]@ * s@,
//@at loop 0 after
proof { assert forall|i: int, j: int| din(self, i, j) implies #[trigger] dat(into, i, j) == dat(self, i, j) * s@ by { if indiag(N, i, j) { lemma_dpos(self, i, j); } } }
//@endfn
//@fn matrix/src/n_diag_generic_matrix.rs NDiagGenericMatrix:MulAssign<T>:mul_assign (self, s) as=vp_mul_assign
requires dwf(old(self)),
ensures dwf(final(self)), dsame(old(self), final(self)),
   forall|i: int, j: int| din(old(self), i, j) ==> #[trigger] dat(final(self), i, j) == dat(old(self), i, j) * s@,
//@loop 0
invariant $n == self.data@.len(), self.data@.len() == old(self).data@.len(), dsame(old(self), self), dwf(old(self)),
  forall|k: int| 0 <= k < $k ==> (#[trigger] self.data@[k])@ == old(self).data@[k]@ * s@,
  forall|k: int| $k <= k < $n ==> #[trigger] self.data@[k] == old(self).data@[k],
//@at end
proof { assert forall|i: int, j: int| din(old(self), i, j) implies #[trigger] dat(self, i, j) == dat(old(self), i, j) * s@ by { if indiag(N, i, j) { lemma_dpos(old(self), i, j); } } }
//@endfn
