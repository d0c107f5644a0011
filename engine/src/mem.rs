//! Copy-on-write byte memory with optional symbolic shadow.
use crate::expr::E;
use std::rc::Rc;

pub const PB: u64 = 12;
pub const PS: usize = 1 << PB;
const CB: u64 = 6; // pages per chunk (log2)

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    /// 0: concrete; otherwise an 8-bit expression
    pub sh: Option<Box<[E; PS]>>,
}

type Chunk = [Option<Rc<Page>>; 1 << CB];

#[derive(Clone)]
pub struct Mem {
    top: Vec<Option<Rc<Chunk>>>,
    zero: Rc<Page>,
}

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Mem {
        Mem { top: vec![], zero: Rc::new(Page { d: [0; PS], sh: None }) }
    }

    pub fn map(&mut self, addr: u64, len: u64) {
        if len == 0 {
            return;
        }
        let (a, b) = (addr >> PB, (addr + len - 1) >> PB);
        for p in a..=b {
            let ci = (p >> CB) as usize;
            if self.top.len() <= ci {
                self.top.resize(ci + 1, None);
            }
            let c = self.top[ci].get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
            let pi = (p & ((1 << CB) - 1)) as usize;
            if c[pi].is_none() {
                let z = self.zero.clone();
                Rc::make_mut(c)[pi] = Some(z);
            }
        }
    }

    #[inline(always)]
    pub fn page(&self, addr: u64) -> Option<&Page> {
        let p = addr >> PB;
        let c = self.top.get((p >> CB) as usize)?.as_ref()?;
        c[(p & ((1 << CB) - 1)) as usize].as_deref()
    }

    #[inline(always)]
    pub fn page_mut(&mut self, addr: u64) -> Option<&mut Page> {
        let p = addr >> PB;
        let c = self.top.get_mut((p >> CB) as usize)?.as_mut()?;
        let c = Rc::make_mut(c);
        let pg = c[(p & ((1 << CB) - 1)) as usize].as_mut()?;
        Some(Rc::make_mut(pg))
    }

    pub fn set8(&mut self, addr: u64, v: u8) {
        let p = self.page_mut(addr).expect("set8 unmapped");
        let o = (addr as usize) & (PS - 1);
        p.d[o] = v;
        if let Some(s) = p.sh.as_mut() {
            s[o] = 0;
        }
    }

    /// (byte, expression)
    pub fn get(&self, addr: u64) -> Result<(u8, E), Fault> {
        let p = self.page(addr).ok_or(Fault(addr))?;
        let o = (addr as usize) & (PS - 1);
        Ok((p.d[o], p.sh.as_ref().map_or(0, |s| s[o])))
    }

    pub fn put(&mut self, addr: u64, v: u8, e: E) -> Result<(), Fault> {
        let p = self.page_mut(addr).ok_or(Fault(addr))?;
        let o = (addr as usize) & (PS - 1);
        p.d[o] = v;
        if e != 0 {
            p.sh.get_or_insert_with(|| Box::new([0; PS]))[o] = e;
        } else if let Some(s) = p.sh.as_mut() {
            s[o] = 0;
        }
        Ok(())
    }

    /// Concrete little-endian load; None when some byte is symbolic.
    #[inline(always)]
    pub fn load_c(&self, addr: u64, n: usize) -> Result<Option<u128>, Fault> {
        let o = (addr as usize) & (PS - 1);
        if o + n <= PS {
            let p = self.page(addr).ok_or(Fault(addr))?;
            if let Some(s) = p.sh.as_ref() {
                if s[o..o + n].iter().any(|&e| e != 0) {
                    return Ok(None);
                }
            }
            let d = &p.d[o..o + n];
            return Ok(Some(match n {
                1 => d[0] as u128,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(d);
                    u128::from_le_bytes(b)
                }
            }));
        }
        let mut r = 0u128;
        for i in 0..n {
            let (b, e) = self.get(addr + i as u64)?;
            if e != 0 {
                return Ok(None);
            }
            r |= (b as u128) << (8 * i);
        }
        Ok(Some(r))
    }

    #[inline(always)]
    pub fn store_c(&mut self, addr: u64, n: usize, v: u128) -> Result<(), Fault> {
        let o = (addr as usize) & (PS - 1);
        if o + n <= PS {
            let p = self.page_mut(addr).ok_or(Fault(addr))?;
            if let Some(s) = p.sh.as_mut() {
                s[o..o + n].fill(0);
            }
            let d = &mut p.d[o..o + n];
            match n {
                1 => d[0] = v as u8,
                4 => d.copy_from_slice(&(v as u32).to_le_bytes()),
                8 => d.copy_from_slice(&(v as u64).to_le_bytes()),
                _ => d.copy_from_slice(&v.to_le_bytes()[..n]),
            }
            return Ok(());
        }
        for i in 0..n {
            self.put(addr + i as u64, (v >> (8 * i)) as u8, 0)?;
        }
        Ok(())
    }

    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s {
            return Ok(());
        }
        // read everything first (memmove semantics)
        let mut buf = vec![0u8; n as usize];
        let mut sh: Option<Vec<E>> = None;
        let mut i = 0u64;
        while i < n {
            let a = s + i;
            let o = (a as usize) & (PS - 1);
            let k = ((PS - o) as u64).min(n - i) as usize;
            let p = self.page(a).ok_or(Fault(a))?;
            buf[i as usize..i as usize + k].copy_from_slice(&p.d[o..o + k]);
            if let Some(x) = p.sh.as_ref() {
                if x[o..o + k].iter().any(|&e| e != 0) {
                    let v = sh.get_or_insert_with(|| vec![0; n as usize]);
                    v[i as usize..i as usize + k].copy_from_slice(&x[o..o + k]);
                }
            }
            i += k as u64;
        }
        let mut i = 0u64;
        while i < n {
            let a = d + i;
            let o = (a as usize) & (PS - 1);
            let k = ((PS - o) as u64).min(n - i) as usize;
            let p = self.page_mut(a).ok_or(Fault(a))?;
            p.d[o..o + k].copy_from_slice(&buf[i as usize..i as usize + k]);
            match &sh {
                None => {
                    if let Some(x) = p.sh.as_mut() {
                        x[o..o + k].fill(0);
                    }
                }
                Some(v) => {
                    let part = &v[i as usize..i as usize + k];
                    if part.iter().any(|&e| e != 0) || p.sh.is_some() {
                        let x = p.sh.get_or_insert_with(|| Box::new([0; PS]));
                        x[o..o + k].copy_from_slice(part);
                    }
                }
            }
            i += k as u64;
        }
        Ok(())
    }

    pub fn fill(&mut self, d: u64, n: u64, v: u8, e: E) -> Result<(), Fault> {
        let mut i = 0u64;
        while i < n {
            let a = d + i;
            let o = (a as usize) & (PS - 1);
            let k = ((PS - o) as u64).min(n - i) as usize;
            let p = self.page_mut(a).ok_or(Fault(a))?;
            p.d[o..o + k].fill(v);
            if e != 0 {
                p.sh.get_or_insert_with(|| Box::new([0; PS]))[o..o + k].fill(e);
            } else if let Some(x) = p.sh.as_mut() {
                x[o..o + k].fill(0);
            }
            i += k as u64;
        }
        Ok(())
    }
}
