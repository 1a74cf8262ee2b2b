//@include date.inc
//@fn calendar/src/date.rs Date::day_of_year (self)
requires 1 <= self.month <= 12,
ensures ret@ == doy(*self),
//@endfn

//@fn calendar/src/date.rs Date::from_day_of_year (n) castr
requires 0real <= n@ < 365real,
ensures dvalid(ret), doy(ret) == n@,
//@loop 0
invariant $n == 12, 0real <= n@ < 365real,
   CUMULATED_DAYS_BEFORE_MONTH@.len() == 12,
   forall|j: int| 0 <= j < 12 ==> (#[trigger] CUMULATED_DAYS_BEFORE_MONTH@[j])@ == cum(j + 1) as real,
   forall|j: int| 1 <= j <= $k ==> (#[trigger] cum(j)) as real <= n@,
//@at loop 0 start
proof { assert(CUMULATED_DAYS_BEFORE_MONTH@[$k as int]@ == cum($k + 1) as real); if $k > 0 { assert(CUMULATED_DAYS_BEFORE_MONTH@[$k - 1]@ == cum($k as int) as real); assert(cum($k as int) as real <= n@); } }
//@at loop 0 after
proof { assert(cum(12) as real <= n@); }
//@endfn

//@fn calendar/src/date.rs Date::add_days (self, n_days) attr=verifier::rlimit(60)
requires dayvalid(*old(self)), n_days <= 0x1_0000_0000_0000,
ensures dayvalid(*final(self)), final(self).hour == old(self).hour,
   diy(*final(self)) == (diy(*old(self)) + n_days) % 365,
decreases n_days,
//@at start
let ghost d0 = *self;
let ghost n0: int = n_days as int;
proof { assert((diy(d0) + n0) % 365 == (diy(d0) + n0 % 365) % 365) by { vstd::arithmetic::div_mod::lemma_add_mod_noop_right(diy(d0), n0, 365); } }
//@endfn

//@fn calendar/src/date.rs Date::add_hours (self, n_hours) castr
requires dvalid(*old(self)), 0real <= n_hours@ <= 1000000000000real,
ensures dvalid(*final(self)), after_hours(*old(self), *final(self), n_hours@),
//@at start
let ghost d0 = *self;
//@at end
proof {
   let q = (n_hours@ / 24real).floor();
   assert(0 <= q);
   let t = diy(d0) + q;
   let k1 = t / 365;
   let k2: int = if d0.hour@ + (n_hours@ - 24real * (q as real)) >= 24real { (t % 365 + 1) / 365 } else { 0 };
   let k = k1 + k2;
   assert(t == 365 * k1 + t % 365);
   let tt = t % 365;
   if d0.hour@ + (n_hours@ - 24real * (q as real)) >= 24real {
      assert(tt + 1 == 365 * k2 + (tt + 1) % 365);
   }
   assert((t as real) == 365real * (k1 as real) + (tt as real));
   let h = d0.hour@ + (n_hours@ - 24real * (q as real));
   assert(0real <= h < 48real);
   if h >= 24real {
      assert((h / 24real).floor() == 1);
      assert(((tt + 1) as real) == 365real * (k2 as real) + (((tt + 1) % 365) as real));
      assert(self.hour@ == h - 24real);
      assert(diy(*self) == (tt + 1) % 365);
   } else {
      assert(self.hour@ == h);
      assert(diy(*self) == tt);
   }
   assert(hrs_shift(d0, n_hours@, k) == hrs(*self));
}
//@endfn

//@fn calendar/src/date.rs Date::add_seconds (self, dt)
requires dvalid(*old(self)), 0real <= dt@ <= 1000000000000real,
ensures dvalid(*final(self)), after_hours(*old(self), *final(self), dt@ / 3600real),
//@endfn

//@fn calendar/src/date.rs Date::add_minutes (self, minutes)
requires dvalid(*old(self)), 0real <= minutes@ <= 1000000000000real,
ensures dvalid(*final(self)), after_hours(*old(self), *final(self), minutes@ / 60real),
//@endfn

//@fn calendar/src/date.rs Date::same_day (self, other)
ensures ret == (self.month == other.month && self.day == other.day),
//@endfn

//@fn calendar/src/date.rs Date:Ord:cmp (self, other)
requires dvalid(*self), dvalid(*other),
ensures ret == (if doy(*self) < doy(*other) { Ordering::Less } else if doy(*self) > doy(*other) { Ordering::Greater } else { Ordering::Equal }),
//@endfn

//@fn calendar/src/date.rs Date:PartialOrd:partial_cmp (self, other) as=vp_partial_cmp
requires dvalid(*self), dvalid(*other),
ensures ret == Some(if doy(*self) < doy(*other) { Ordering::Less } else if doy(*self) > doy(*other) { Ordering::Greater } else { Ordering::Equal }),
//@endfn

//@fn calendar/src/date.rs Date:Sub:sub (self, other) as=vp_sub
requires 1 <= self.month <= 12, 1 <= other.month <= 12,
ensures ret@ == doy(self) - doy(other),
//@endfn

//@fn calendar/src/date.rs Date::interpolate (self, other, x)
requires dvalid(*self), dvalid(other), 0real <= x@ <= 1real,
ensures dvalid(ret),
   ipol_ok(doy(ret), ipol(doy(*self), doy(other), x@)),
//@at start
proof { lemma_ipol(doy(*self), doy(other), x@); }
//@endfn
// same day of the year, up to whole years
pub open spec fn ipol_ok(r: real, full: real) -> bool { 0real <= full <= 730real && r == (if full < 365real { full } else if full < 730real { full - 365real } else { full - 730real }) }
pub open spec fn ipol(a: real, b: real, x: real) -> real { a + x * ((if b < a { b + 365real } else { b }) - a) }

proof fn lemma_ipol(a: real, b: real, x: real)
   requires 0real <= a < 365real, 0real <= b < 365real, 0real <= x <= 1real
   ensures 0real <= ipol(a, b, x) < 730real
{
   let c = (if b < a { b + 365real } else { b }) - a;
   assert(0real <= c <= 365real);
   assert(0real <= x * c <= c) by(nonlinear_arith) requires 0real <= x <= 1real, 0real <= c;
   assert((ipol(a, b, x) / 365real).floor() == (if ipol(a, b, x) < 365real { 0int } else { 1int })) by {
      let f = ipol(a, b, x);
      assert(0real <= f / 365real);
   }
}

// the two conversions are inverse of one another on valid dates
proof fn doy_injective(a: Date, b: Date)
   requires dvalid(a), dvalid(b), doy(a) == doy(b)
   ensures a.month == b.month, a.day == b.day, a.hour@ == b.hour@
{
}
