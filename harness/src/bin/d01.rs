use calendar::Date;
use std::cmp::Ordering;
use vpharness::*;

const CUM: [usize; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
const DIM: [usize; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
fn from_diy(mut d: usize, hour: f64) -> Date {
    d %= 365;
    let mut m = 11;
    while CUM[m] > d {
        m -= 1;
    }
    Date { month: m as u8 + 1, day: (d - CUM[m]) as u8 + 1, hour }
}
fn diy(d: &Date) -> usize {
    CUM[d.month as usize - 1] + d.day as usize - 1
}
fn valid(d: &Date) -> Result<(), String> {
    ensure(d.month >= 1 && d.month <= 12 && d.day >= 1 && d.day as usize <= DIM[d.month as usize - 1] && d.hour >= 0. && d.hour < 24.0 + 1e-9, || format!("{:?} is not a valid date", d))
}
fn hrs(d: &Date) -> f64 {
    24. * diy(d) as f64 + d.hour
}
fn circ(a: f64, b: f64, period: f64) -> f64 {
    let x = (a - b).rem_euclid(period);
    x.min(period - x)
}

fn main() {
    run("D01", |c| {
        // every day of the year, every number of days up to several years
        let nmax = c.n(1200, 5000);
        for d in 0..365 {
            for n in 0..nmax {
                let s = from_diy(d, 7.25);
                c.case("add_days", || format!("{:?} + {} days", s, n), || {
                    let mut x = s;
                    x.add_days(n);
                    let w = from_diy(d + n, 7.25);
                    ensure(x == w, || format!("got {:?}, the contract says {:?}", x, w))
                });
            }
        }
        for &n in &[365usize, 730, 3650, 36500, 1_000_000, 123_456_789] {
            for d in [0, 58, 59, 180, 364] {
                let s = from_diy(d, 0.0);
                c.case("add_days", || format!("{:?} + {} days", s, n), || {
                    let mut x = s;
                    x.add_days(n);
                    let w = from_diy(d + n % 365, 0.0);
                    ensure(x == w, || format!("got {:?}, the contract says {:?}", x, w))
                });
            }
        }
        // conversions
        let hours = [0.0, 0.25, 1.0, 6.5, 11.999, 12.0, 18.75, 23.0, 23.5, 23.999];
        for d in 0..365 {
            for &h in &hours {
                let s = from_diy(d, h);
                c.case("day_of_year", || format!("{:?}", s), || expect("day_of_year", s.day_of_year(), d as f64 + h / 24., 1e-12, 1e-12));
                let n = d as f64 + h / 24.;
                c.case("from_day_of_year", || format!("n={}", n), || {
                    let x = Date::from_day_of_year(n);
                    valid(&x)?;
                    ensure(circ(hrs(&x), 24. * n, 8760.) < 1e-6, || format!("got {:?}", x))?;
                    ensure(diy(&x) == d || h == 0.0 || h > 23.99, || format!("got {:?}, wrong day", x))
                });
            }
            // exact midnights
            c.case("from_day_of_year", || format!("n={}", d), || {
                let x = Date::from_day_of_year(d as f64);
                ensure(x == from_diy(d, 0.0), || format!("got {:?}", x))
            });
        }
        for _ in 0..c.n(20000, 400000) {
            let n = c.rng.range(0.0, 365.0);
            c.case("from_day_of_year", || format!("n={:?}", n), || {
                let x = Date::from_day_of_year(n);
                valid(&x)?;
                ensure(diy(&x) == n.floor() as usize, || format!("got {:?}", x))?;
                expect("round trip", x.day_of_year(), n, 1e-12, 1e-9)
            });
        }
        // adding time
        for i in 0..c.n(60000, 1_000_000) {
            let d = c.rng.int(0, 365);
            let h = *c.rng.pick(&hours);
            let h = if c.rng.bool() { h } else { c.rng.range(0., 24.) };
            let n = match i % 6 {
                0 => c.rng.range(0., 24.),
                1 => c.rng.range(0., 9000.),
                2 => c.rng.int(0, 20000) as f64,
                3 => c.rng.int(0, 400) as f64 * 24.,
                4 => c.rng.int(0, 100) as f64 / 12.,
                _ => c.rng.range(0., 100000.),
            };
            let s = from_diy(d, h);
            let chk = |x: Date, n: f64| -> Result<(), String> {
                valid(&x)?;
                ensure(circ(hrs(&x), hrs(&s) + n, 8760.) < 1e-5, || format!("got {:?}, the contract says {} hours after the start", x, n))
            };
            c.case("add_hours", || format!("{:?} + {:?} h", s, n), || {
                let mut x = s;
                x.add_hours(n);
                chk(x, n)
            });
            c.case("add_minutes", || format!("{:?} + {:?} min", s, n * 7.), || {
                let mut x = s;
                x.add_minutes(n * 7.);
                chk(x, n * 7. / 60.)
            });
            c.case("add_seconds", || format!("{:?} + {:?} s", s, n * 411.), || {
                let mut x = s;
                x.add_seconds(n * 411.);
                chk(x, n * 411. / 3600.)
            });
        }
        // a year of steps comes back to the start
        for &dt in &[60.0 * 15., 3600., 1800., 600., 86400.] {
            let d = c.rng.int(0, 365);
            let s = from_diy(d, 0.0);
            c.case("year_of_steps", || format!("{:?} dt={}", s, dt), || {
                let mut x = s;
                let n = (365. * 86400. / dt) as usize;
                for i in 0..n {
                    x.add_seconds(dt);
                    valid(&x)?;
                    let w = hrs(&s) + (i + 1) as f64 * dt / 3600.;
                    ensure(circ(hrs(&x), w, 8760.) < 1e-4, || format!("after {} steps: {:?}", i + 1, x))?;
                }
                Ok(())
            });
        }
        // order
        let mut ds = vec![];
        for d in 0..365 {
            for h in [0.0, 5.5, 23.9] {
                ds.push(from_diy(d, h));
            }
        }
        let step = c.n(2, 1);
        for i in (0..ds.len()).step_by(step) {
            for j in 0..ds.len() {
                let (a, b) = (ds[i], ds[j]);
                c.case("order", || format!("{:?} vs {:?}", a, b), || {
                    let w = i.cmp(&j);
                    ensure(a.cmp(&b) == w && a.partial_cmp(&b) == Some(w), || format!("cmp gives {:?}, the contract says {:?}", a.cmp(&b), w))?;
                    ensure((a < b) == (w == Ordering::Less) && (a > b) == (w == Ordering::Greater) && (a <= b) == (w != Ordering::Greater) && (a >= b) == (w != Ordering::Less) && (a == b) == (i == j), || "comparison operators disagree".into())?;
                    #[allow(deprecated)]
                    ensure(a.is_earlier(b) == (i < j), || "is_earlier".into())?;
                    ensure(a.same_day(b) == (i / 3 == j / 3), || "same_day".into())?;
                    expect("difference in days", a - b, a.day_of_year() - b.day_of_year(), 1e-12, 1e-12)
                });
            }
        }
        // interpolation
        for _ in 0..c.n(20000, 200000) {
            let (d1, h1, d2, h2) = (c.rng.int(0, 365), c.rng.range(0., 23.9), c.rng.int(0, 365), c.rng.range(0., 23.9));
            let (a, b) = (from_diy(d1, h1), from_diy(d2, h2));
            let x = if c.rng.int(0, 5) == 0 { 0.0 } else { c.rng.f() };
            c.case("interpolate", || format!("{:?} {:?} x={:?}", a, b, x), || {
                let r = a.interpolate(b, x);
                valid(&r)?;
                let mut span = hrs(&b) - hrs(&a);
                if span < 0. {
                    span += 8760.;
                }
                ensure(circ(hrs(&r), hrs(&a) + x * span, 8760.) < 1e-5, || format!("got {:?}", r))
            });
        }
    });
}
