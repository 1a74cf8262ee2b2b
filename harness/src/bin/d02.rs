use calendar::{Date, Period};
use vpharness::*;

const CUM: [usize; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
/// quarter-hours of the year -> date (exact in binary)
fn at(q: usize) -> Date {
    let q = q % (365 * 96);
    let d = q / 96;
    let mut m = 11;
    while CUM[m] > d {
        m -= 1;
    }
    Date { month: m as u8 + 1, day: (d - CUM[m]) as u8 + 1, hour: (q % 96) as f64 / 4. }
}
const Y: usize = 365 * 96;

fn iterate(c: &mut Ctx, s: usize, e: usize, dtq: usize) {
    let (sd, ed) = (at(s), at(e));
    let dt = dtq as f64 * 900.;
    c.case("iteration", || format!("start={:?} end={:?} dt={}", sd, ed, dt), || {
        let len = (e + Y - s) % Y;
        let n = len / dtq;
        let mut p = Period::new(sd, ed, dt);
        for k in 1..=n {
            match p.next() {
                None => return Err(format!("ended after {} dates; the contract says {}", k - 1, n)),
                Some(d) => {
                    let w = at(s + k * dtq);
                    ensure(d == w, || format!("date number {} is {:?}; the contract says {:?}", k, d, w))?;
                    ensure(p.contains(d), || format!("date number {} ({:?}) is not contained in the period that produced it", k, d))?;
                }
            }
        }
        for _ in 0..3 {
            if let Some(d) = p.next() {
                return Err(format!("{:?} emitted after the end (the contract says {} dates)", d, n));
            }
        }
        Ok(())
    });
}

fn main() {
    run("D02", |c| {
        let dts = [1usize, 2, 3, 4, 6, 8, 12, 24, 48, 96, 100, 192, 7 * 96, 30 * 96, 200 * 96, 364 * 96 + 95];
        for i in 0..c.n(6000, 120000) {
            let s = match i % 5 {
                0 => c.rng.int(0, Y),
                1 => Y - 1 - c.rng.int(0, 200),
                2 => c.rng.int(0, 200),
                3 => c.rng.int(0, 365) * 96,
                _ => c.rng.int(0, 365) * 96 + 95,
            };
            let e = match c.rng.int(0, 5) {
                0 => s,
                1 => (s + c.rng.int(0, 300)) % Y,
                2 => c.rng.int(0, Y),
                3 => (s + Y - 1 - c.rng.int(0, 100)) % Y,
                _ => (s + 96 * c.rng.int(0, 40)) % Y,
            };
            let dt = if c.rng.bool() { *c.rng.pick(&dts) } else { 1 + c.rng.int(0, 400) };
            let len = (e + Y - s) % Y;
            let dt = if len / dt > 4000 && i % 50 != 0 { 40 + dt } else { dt };
            iterate(c, s, e, dt);
        }
        // around new year, all small combinations
        for s in Y - 8..Y + 3 {
            for l in 0..16 {
                for dt in 1..20 {
                    iterate(c, s % Y, (s + l) % Y, dt);
                }
            }
        }
        for i in 0..c.n(200000, 2000000) {
            let s = if i % 3 == 0 { c.rng.int(0, 300) } else { c.rng.int(0, Y) };
            let e = match i % 4 {
                0 => s,
                1 => (s + c.rng.int(0, 100)) % Y,
                _ => c.rng.int(0, Y),
            };
            let x = match c.rng.int(0, 4) {
                0 => s,
                1 => e,
                2 => (e + 1) % Y,
                _ => c.rng.int(0, Y),
            };
            let (sd, ed, xd) = (at(s), at(e), at(x));
            c.case("contains", || format!("start={:?} end={:?} date={:?}", sd, ed, xd), || {
                let w = (x + Y - s) % Y <= (e + Y - s) % Y;
                let g = Period::new(sd, ed, 3600.).contains(xd);
                ensure(g == w, || format!("contains gives {}, the contract says {}", g, w))
            });
        }
    });
}
