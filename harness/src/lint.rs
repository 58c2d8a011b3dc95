//! F05: the exported wide integers.
use crate::itf::Op;
use crate::util::*;
use halo2curves::ff_ext::jacobi::LInt;
use num_bigint::BigInt;
use num_traits::ToPrimitive;

struct M<const L: usize> {
    regs: Vec<LInt<L>>,
}

fn of<const L: usize>(x: &BigInt) -> LInt<L> {
    LInt::<L>::new(&limbs(x, L))
}

impl<const L: usize> M<L> {
    fn store(&mut self, op: &Op, x: LInt<L>) -> R {
        let w = of::<L>(&op.e[0]);
        cmp(&format!("{} equals {}", op.o, op.e[0]), (x == w, w == x, x.is_negative() == w.is_negative()), (true, true, true))?;
        self.regs[u(&op.a[0])] = x;
        Ok(())
    }
    fn exec(&mut self, op: &Op) -> R {
        let r = |i: usize| self.regs[u(&op.a[i])].clone();
        let f = |i: usize| u(&op.a[i]);
        match op.o.as_str() {
            "lnew" => {
                let x = LInt::<L>::new(&limbs(&op.e[0], op.a.get(1).map_or(L, u)));
                self.store(op, x)
            }
            "ladd" => {
                let (x, y) = (r(1), r(2));
                let z = match f(3) { 0 => &x + &y, 1 => x + &y, 2 => x + y, _ => if f(1) == f(2) { &x + &x } else { &y + &x } };
                self.store(op, z)
            }
            "lsub" => {
                let (x, y) = (r(1), r(2));
                let z = match f(3) { 0 => &x - &y, 1 => x - &y, 2 => x - y, _ => if f(1) == f(2) { &x - &x } else { -(y - x) } };
                self.store(op, z)
            }
            "lmul" => {
                let (x, y) = (r(1), r(2));
                let z = match f(3) { 0 => &x * &y, 1 => x * &y, 2 => x * y, _ => if f(1) == f(2) { &x * &x } else { &y * &x } };
                self.store(op, z)
            }
            "lmuls" => {
                let (x, s) = (r(1), op.a[2].to_i64().ok_or("harness: word")?);
                let z = match f(3) { 0 => &x * s, 1 => x * s, 2 => s * &x, _ => s * x };
                self.store(op, z)
            }
            "lneg" => {
                let x = r(1);
                let z = if f(2) % 2 == 0 { -&x } else { -x };
                self.store(op, z)
            }
            "lshr" => {
                let (x, k) = (r(1), f(2) as u32);
                let z = if f(3) % 2 == 0 { &x >> k } else { x >> k };
                self.store(op, z)
            }
            "lcmp" => {
                let (x, y, z) = (r(0), r(1), of::<L>(&op.a[2]));
                let b = |i: usize| !is0(&op.e[i]);
                cmp("==", (x == y, y == x, x != y), (b(0), b(0), !b(0)))?;
                cmp("numbers that differ in one bit are different", (x == z, z == x), (false, false))?;
                cmp("is_negative", x.is_negative(), b(1))?;
                cmp("ZERO, ONE, MINUS_ONE", (x == LInt::ZERO, x == LInt::ONE, x == LInt::MINUS_ONE), (b(2), b(3), b(4)))?;
                cmp("is_negative", z.is_negative(), b(5))
            }
            "llen" => {
                let v = vec![1u64; f(0)];
                cmp("new accepts at most L words", quiet(|| LInt::<L>::new(&v)).is_ok(), !is0(&op.e[0]))
            }
            o => Err(format!("harness: unknown operation {o}")),
        }
    }
}

pub fn machine(t: &str) -> Option<Box<dyn FnMut(&Op) -> R>> {
    macro_rules! go { ($($n:literal),*) => { $( if t == concat!("lint", $n) {
        let mut m = M::<$n> { regs: vec![LInt::ZERO; 6] };
        return Some(Box::new(move |o| m.exec(o)));
    } )* } }
    go!(1, 2, 3, 4, 5, 6, 7, 8, 9);
    None
}
