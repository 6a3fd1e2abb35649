//! Copy-on-write paged memory with a symbolic byte overlay.
use crate::ir::GBASE;
use std::rc::Rc;

pub const PS: usize = 512;
const DN: usize = 64;
pub const SBASE: u64 = 0x1000_0000;
pub const HBASE: u64 = 0x4000_0000;
pub const TOP: u64 = 0x8000_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<[u32; PS]>>,
}
type Dir = [Option<Rc<Page>>; DN];
const NONE: Option<Rc<Page>> = None;

#[derive(Clone)]
pub struct Mem {
    r: [Vec<Option<Rc<Dir>>>; 3],
}

pub struct Fault(pub u64);

fn region(a: u64) -> Result<(usize, u64), Fault> {
    if a >= HBASE && a < TOP {
        Ok((2, a - HBASE))
    } else if a >= SBASE && a < HBASE {
        Ok((1, a - SBASE))
    } else if a >= GBASE && a < SBASE {
        Ok((0, a - GBASE))
    } else {
        Err(Fault(a))
    }
}

impl Mem {
    pub fn new(image: &[u8]) -> Mem {
        let mut m = Mem { r: [vec![], vec![], vec![]] };
        let mut o = 0;
        while o < image.len() {
            let n = (image.len() - o).min(PS);
            let p = m.page_mut(GBASE + o as u64).ok().unwrap();
            p.d[..n].copy_from_slice(&image[o..o + n]);
            o += PS;
        }
        m
    }
    #[inline]
    pub fn page(&self, a: u64) -> Result<Option<&Rc<Page>>, Fault> {
        let (r, o) = region(a)?;
        let p = o as usize / PS;
        Ok(match self.r[r].get(p / DN) {
            Some(Some(d)) => d[p % DN].as_ref(),
            _ => None,
        })
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let (r, o) = region(a)?;
        let p = o as usize / PS;
        let v = &mut self.r[r];
        if v.len() <= p / DN {
            v.resize(p / DN + 1, None);
        }
        let d = v[p / DN].get_or_insert_with(|| Rc::new([NONE; DN]));
        let d = Rc::make_mut(d);
        let pg = d[p % DN].get_or_insert_with(|| Rc::new(Page { d: [0; PS], s: None }));
        Ok(Rc::make_mut(pg))
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, u32), Fault> {
        Ok(match self.page(a)? {
            None => (0, 0),
            Some(p) => {
                let o = a as usize % PS;
                (p.d[o], p.s.as_ref().map_or(0, |s| s[o]))
            }
        })
    }
    pub fn set_byte(&mut self, a: u64, v: u8, s: u32) -> Result<(), Fault> {
        let p = self.page_mut(a)?;
        let o = a as usize % PS;
        p.d[o] = v;
        if let Some(x) = p.s.as_mut() {
            x[o] = s;
        } else if s != 0 {
            let mut x = Box::new([0u32; PS]);
            x[o] = s;
            p.s = Some(x);
        }
        Ok(())
    }
    /// concrete read of n<=8 bytes, None if some byte is symbolic
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = a as usize % PS;
        if o + n <= PS {
            return Ok(match self.page(a)? {
                None => Some(0),
                Some(p) => {
                    if let Some(s) = &p.s {
                        for k in 0..n {
                            if s[o + k] != 0 {
                                return Ok(None);
                            }
                        }
                    }
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&p.d[o..o + n]);
                    Some(u64::from_le_bytes(b))
                }
            });
        }
        let mut r = 0u64;
        for k in 0..n {
            let (v, s) = self.byte(a + k as u64)?;
            if s != 0 {
                return Ok(None);
            }
            r |= (v as u64) << (8 * k);
        }
        Ok(Some(r))
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = a as usize % PS;
        let b = v.to_le_bytes();
        if o + n <= PS {
            let p = self.page_mut(a)?;
            p.d[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = p.s.as_mut() {
                for k in 0..n {
                    s[o + k] = 0;
                }
            }
            return Ok(());
        }
        for k in 0..n {
            self.set_byte(a + k as u64, b[k], 0)?;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        if dst < src + n && src < dst + n {
            let v: Result<Vec<(u8, u32)>, Fault> = (0..n).map(|k| self.byte(src + k)).collect();
            for (k, (b, s)) in v?.into_iter().enumerate() {
                self.set_byte(dst + k as u64, b, s)?;
            }
            return Ok(());
        }
        let mut k = 0;
        while k < n {
            let so = (src + k) as usize % PS;
            let d_o = (dst + k) as usize % PS;
            let c = (PS - so).min(PS - d_o).min((n - k) as usize);
            let sp = self.page(src + k)?.cloned();
            let dp = self.page_mut(dst + k)?;
            match sp {
                None => {
                    for x in &mut dp.d[d_o..d_o + c] {
                        *x = 0;
                    }
                    if let Some(s) = dp.s.as_mut() {
                        for x in &mut s[d_o..d_o + c] {
                            *x = 0;
                        }
                    }
                }
                Some(p) => {
                    dp.d[d_o..d_o + c].copy_from_slice(&p.d[so..so + c]);
                    match (&p.s, dp.s.as_mut()) {
                        (Some(s), Some(t)) => t[d_o..d_o + c].copy_from_slice(&s[so..so + c]),
                        (Some(s), None) => {
                            if s[so..so + c].iter().any(|x| *x != 0) {
                                let mut x = Box::new([0u32; PS]);
                                x[d_o..d_o + c].copy_from_slice(&s[so..so + c]);
                                dp.s = Some(x);
                            }
                        }
                        (None, Some(t)) => {
                            for x in &mut t[d_o..d_o + c] {
                                *x = 0;
                            }
                        }
                        _ => {}
                    }
                }
            }
            k += c as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, v: u8, n: u64) -> Result<(), Fault> {
        let mut k = 0;
        while k < n {
            let o = (dst + k) as usize % PS;
            let c = (PS - o).min((n - k) as usize);
            let p = self.page_mut(dst + k)?;
            for x in &mut p.d[o..o + c] {
                *x = v;
            }
            if let Some(s) = p.s.as_mut() {
                for x in &mut s[o..o + c] {
                    *x = 0;
                }
            }
            k += c as u64;
        }
        Ok(())
    }
}
