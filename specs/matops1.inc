//@fn matrix/src/generic_matrix.rs GenericMatrix::add_to_element (self, nrow, ncol, v)
requires mwf(old(self)),
ensures ret is Ok == (nrow < old(self).nrows && ncol < old(self).ncols), ret is Err ==> *final(self) == *old(self),
   ret is Ok ==> updated(old(self), final(self), nrow as int, ncol as int, at(old(self), nrow as int, ncol as int) + v@),
//@at end
proof { if vp_ret is Ok { lemma_updated(old(self), self, nrow as int, ncol as int, self.data@[self.ncols * nrow + ncol]); } }
//@endfn
