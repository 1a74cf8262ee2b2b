//@fn matrix/src/generic_matrix.rs GenericMatrix::add_to_element (self, nrow, ncol, v)
requires mwf(old(self)),
ensures ret is Ok == (nrow < old(self).nrows && ncol < old(self).ncols), ret is Err ==> *final(self) == *old(self),
   ret is Ok ==> updated(old(self), final(self), nrow as int, ncol as int, at(old(self), nrow as int, ncol as int) + v@),
//@at end
proof { if vp_ret is Ok { lemma_updated(old(self), self, nrow as int, ncol as int, self.data@[self.ncols * nrow + ncol]); } }
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix::scale_element (self, nrow, ncol, v)
requires mwf(old(self)),
ensures ret is Ok == (nrow < old(self).nrows && ncol < old(self).ncols), ret is Err ==> *final(self) == *old(self),
   ret is Ok ==> updated(old(self), final(self), nrow as int, ncol as int, at(old(self), nrow as int, ncol as int) * v@),
//@at end
proof { if vp_ret is Ok { lemma_updated(old(self), self, nrow as int, ncol as int, self.data@[self.ncols * nrow + ncol]); } }
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix::scale_into (self, s, into)
requires mwf(self), mwf(old(into)),
ensures mwf(final(into)), same_size(old(into), final(into)), ret is Ok == same_size(self, old(into)), ret is Err ==> *final(into) == *old(into),
   ret is Ok ==> forall|i: int, j: int| isin(self, i, j) ==> #[trigger] at(final(into), i, j) == at(self, i, j) * s@,
//@loop 0
invariant $n == self.data@.len(), $n == into.data@.len(), same_size(old(into), into), same_size(self, old(into)), mwf(self),
  forall|k: int| 0 <= k < $k ==> (#[trigger] into.data@[k])@ == self.data@[k]@ * s@,
//@at loop 0 after
proof { assert forall|i: int, j: int| isin(self, i, j) implies #[trigger] at(into, i, j) == at(self, i, j) * s@ by { lemma_idx(self.nrows as int, self.ncols as int, i, j); } }
//@endfn
//@fn matrix/src/generic_matrix.rs GenericMatrix:AddAssign<&GenericMatrix<T>>:add_assign (self, other) as=vp_add_assign
requires mwf(old(self)), mwf(other), same_size(old(self), other),
ensures mwf(final(self)), same_size(old(self), final(self)), forall|i: int, j: int| isin(old(self), i, j) ==> #[trigger] at(final(self), i, j) == at(old(self), i, j) + at(other, i, j),
//@loop 0
invariant $n == self.data@.len(), self.data@.len() == old(self).data@.len(), same_size(old(self), self), mwf(old(self)), mwf(other), same_size(old(self), other),
  forall|k: int| 0 <= k < $k ==> (#[trigger] self.data@[k])@ == old(self).data@[k]@ + other.data@[k]@,
  forall|k: int| $k <= k < $n ==> #[trigger] self.data@[k] == old(self).data@[k],
//@at end
proof { assert forall|i: int, j: int| isin(old(self), i, j) implies #[trigger] at(self, i, j) == at(old(self), i, j) + at(other, i, j) by { lemma_idx(old(self).nrows as int, old(self).ncols as int, i, j); } }
//@endfn
