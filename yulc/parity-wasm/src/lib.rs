//! Stand-in for the parts of `parity_wasm` the compiler uses (not available offline): it reads a module as a list of
//! sections, lets the initial value of a global be replaced, and writes the module back. Names (custom sections) are kept.
#![allow(clippy::all, dead_code)]
pub mod elements {
    #[derive(Debug, Clone, PartialEq)]
    pub enum Instruction { I32Const(i32), I64Const(i64), End, Raw(Vec<u8>) }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InitExpr(pub(crate) Vec<Instruction>);
    impl InitExpr {
        pub fn new(v: Vec<Instruction>) -> Self { InitExpr(v) }
        pub fn code(&self) -> &[Instruction] { &self.0 }
        pub(crate) fn write(&self, o: &mut Vec<u8>) {
            for i in &self.0 {
                match i {
                    Instruction::I32Const(v) => { o.push(0x41); super::sleb(*v as i64, o) }
                    Instruction::I64Const(v) => { o.push(0x42); super::sleb(*v, o) }
                    Instruction::End => o.push(0x0b),
                    Instruction::Raw(b) => o.extend_from_slice(b),
                }
            }
        }
    }
    #[derive(Debug, Clone)]
    pub struct GlobalEntry { pub(crate) ty: [u8; 2], pub(crate) init: InitExpr }
    impl GlobalEntry {
        pub fn init_expr_mut(&mut self) -> &mut InitExpr { &mut self.init }
        pub fn init_expr(&self) -> &InitExpr { &self.init }
    }
    #[derive(Debug, Clone)]
    pub struct GlobalSection(pub(crate) Vec<GlobalEntry>);
    impl GlobalSection {
        pub fn entries_mut(&mut self) -> &mut Vec<GlobalEntry> { &mut self.0 }
        pub fn entries(&self) -> &[GlobalEntry] { &self.0 }
    }
    #[derive(Debug, Clone)]
    pub(crate) enum Sec { Raw(u8, Vec<u8>), Global(GlobalSection) }
    #[derive(Debug, Clone)]
    pub struct Module { pub(crate) s: Vec<Sec> }
    impl Module {
        pub fn global_section_mut(&mut self) -> Option<&mut GlobalSection> {
            self.s.iter_mut().find_map(|x| if let Sec::Global(g) = x { Some(g) } else { None })
        }
        pub fn global_section(&self) -> Option<&GlobalSection> {
            self.s.iter().find_map(|x| if let Sec::Global(g) = x { Some(g) } else { None })
        }
    }
    #[derive(Debug)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for Error {}
}
use elements::*;
fn uleb(mut v: u64, o: &mut Vec<u8>) {
    loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { o.push(b); break; } o.push(b | 0x80); }
}
pub(crate) fn sleb(mut v: i64, o: &mut Vec<u8>) {
    loop { let b = (v & 0x7f) as u8; v >>= 7; if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) { o.push(b); break; } o.push(b | 0x80); }
}
fn rd(b: &[u8], p: &mut usize) -> Result<u64, Error> {
    let (mut r, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*p).ok_or_else(|| Error("unexpected end".into()))?;
        *p += 1;
        if s < 64 { r |= ((x & 0x7f) as u64) << s; }
        s += 7;
        if x & 0x80 == 0 { return Ok(r); }
    }
}
pub trait Deserialize: Sized { fn de(b: &[u8]) -> Result<Self, Error>; }
impl Deserialize for Module {
    fn de(b: &[u8]) -> Result<Self, Error> {
        if b.len() < 8 || b[..4] != *b"\0asm" || b[4..8] != [1, 0, 0, 0] { return Err(Error("invalid magic or version".into())); }
        let (mut p, mut s) = (8usize, vec![]);
        while p < b.len() {
            let id = b[p];
            p += 1;
            let n = rd(b, &mut p)? as usize;
            let body = b.get(p..p.checked_add(n).ok_or_else(|| Error("length".into()))?).ok_or_else(|| Error("unexpected end".into()))?;
            p += n;
            if id == 6 {
                let mut q = 0;
                let cnt = rd(body, &mut q)?;
                let mut g = vec![];
                for _ in 0..cnt {
                    let ty = [*body.get(q).ok_or_else(|| Error("end".into()))?, *body.get(q + 1).ok_or_else(|| Error("end".into()))?];
                    q += 2;
                    let st = q;
                    let op = *body.get(q).ok_or_else(|| Error("end".into()))?;
                    q += 1;
                    match op {
                        0x41 | 0x42 | 0x23 | 0xd2 => { rd(body, &mut q)?; }
                        0x43 => q += 4,
                        0x44 => q += 8,
                        0xd0 => q += 1,
                        _ => return Err(Error(format!("init expr opcode {op:x}"))),
                    }
                    if body.get(q) != Some(&0x0b) { return Err(Error("init expr".into())); }
                    q += 1;
                    g.push(GlobalEntry { ty, init: InitExpr(vec![Instruction::Raw(body[st..q].to_vec())]) });
                }
                s.push(Sec::Global(GlobalSection(g)));
            } else {
                s.push(Sec::Raw(id, body.to_vec()));
            }
        }
        Ok(Module { s })
    }
}
pub fn deserialize_buffer<T: Deserialize>(b: &[u8]) -> Result<T, Error> { T::de(b) }
pub fn serialize(m: Module) -> Result<Vec<u8>, Error> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for s in &m.s {
        let (id, body) = match s {
            Sec::Raw(i, b) => (*i, b.clone()),
            Sec::Global(g) => {
                let mut b = vec![];
                uleb(g.0.len() as u64, &mut b);
                for e in &g.0 { b.extend_from_slice(&e.ty); e.init.write(&mut b); }
                (6, b)
            }
        };
        o.push(id);
        uleb(body.len() as u64, &mut o);
        o.extend_from_slice(&body);
    }
    Ok(o)
}
pub mod builder {
    use super::elements::Module;
    pub struct ModuleBuilder(Option<Module>);
    pub fn module() -> ModuleBuilder { ModuleBuilder(None) }
    impl ModuleBuilder {
        pub fn with_module(self, m: Module) -> Self { ModuleBuilder(Some(m)) }
        pub fn build(self) -> Module { self.0.unwrap_or(Module { s: vec![] }) }
    }
}
