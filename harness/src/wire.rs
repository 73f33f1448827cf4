//! Hand-written encoders of the published instruction formats.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum S {
    B,
    A,
}
impl S {
    pub fn opp(self) -> S {
        if self == S::B { S::A } else { S::B }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    PO,
    L,
    IOC,
}
#[derive(Clone, Debug)]
pub struct Order {
    pub kind: Kind,
    pub side: S,
    pub px: Option<u64>,
    pub bl: u64,
    pub ql: u64,
    pub minb: u64,
    pub minq: u64,
    pub stb: u8,
    pub ml: Option<u64>,
    pub coid: u128,
    pub rej: bool,
    pub uof: bool,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
    pub fs: bool,
}
#[derive(Clone, Debug)]
pub struct Cond {
    pub px: u64,
    pub sz: u64,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
}

pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(mut self, v: u8) -> W {
        self.0.push(v);
        self
    }
    pub fn side(self, s: S) -> W {
        self.u8(if s == S::B { 0 } else { 1 })
    }
    pub fn b(self, v: bool) -> W {
        self.u8(v as u8)
    }
    pub fn u16(mut self, v: u16) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> W {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> W {
        self.0.extend(v);
        self
    }
    pub fn o64(self, v: Option<u64>) -> W {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).u64(x),
        }
    }
    pub fn o32(self, v: Option<u32>) -> W {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).u32(x),
        }
    }
}
pub fn ix(tag: u8) -> W {
    W(vec![tag])
}

impl Order {
    pub fn enc(&self, w: W) -> W {
        match self.kind {
            Kind::PO => w.u8(0).side(self.side).u64(self.px.unwrap_or(0)).u64(self.bl).u128(self.coid)
                .b(self.rej).b(self.uof).o64(self.lvs).o64(self.lvt).b(self.fs),
            Kind::L => w.u8(1).side(self.side).u64(self.px.unwrap_or(0)).u64(self.bl).u8(self.stb)
                .o64(self.ml).u128(self.coid).b(self.uof).o64(self.lvs).o64(self.lvt).b(self.fs),
            Kind::IOC => w.u8(2).side(self.side).o64(self.px).u64(self.bl).u64(self.ql).u64(self.minb)
                .u64(self.minq).u8(self.stb).o64(self.ml).u128(self.coid).b(self.uof).o64(self.lvs)
                .o64(self.lvt),
        }
    }
}
pub fn conds(mut w: W, v: &[Cond]) -> W {
    w = w.u32(v.len() as u32);
    for c in v {
        w = w.u64(c.px).u64(c.sz).o64(c.lvs).o64(c.lvt);
    }
    w
}
pub fn multi(tag: u8, bids: &[Cond], asks: &[Cond], coid: Option<u128>, beh: u8) -> Vec<u8> {
    let w = conds(conds(ix(tag), bids), asks);
    let w = match coid {
        None => w.u8(0),
        Some(c) => w.u8(1).u128(c),
    };
    w.u8(beh).0
}
