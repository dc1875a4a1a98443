//! What the demonstrations share.
#![allow(dead_code)]
use jubako as jbk;
use jubako::creator::schema;
use std::collections::HashMap;
use std::sync::Arc;

pub use jbk::creator::{CompHint, Compression, ConcatMode};
pub type Entry = jbk::creator::BasicEntry<&'static str, &'static str>;
pub type Store = jbk::creator::EntryStore<&'static str, &'static str, Entry>;
pub type Values = HashMap<&'static str, jbk::Value>;
pub type Prop = schema::Property<&'static str>;

/// One entry store, its value stores, one index named "main" over all of it.
pub struct One {
    pub values: Vec<jbk::creator::StoreHandle>,
    pub store: Box<Store>,
}
impl One {
    pub fn new(values: Vec<jbk::creator::StoreHandle>, props: Vec<Prop>, sort: Option<Vec<&'static str>>) -> Self {
        let s = schema::Schema::new(schema::CommonProperties::new(props), vec![], sort);
        Self { values, store: Box::new(Store::new(s, None)) }
    }
    pub fn add(&mut self, v: Vec<(&'static str, jbk::Value)>) -> jbk::Bound<jbk::EntryIdx> {
        let e = Entry::new_from_schema(&self.store.schema, None, v.into_iter().collect());
        self.store.add_entry(e)
    }
}
impl jbk::creator::EntryStoreTrait for One {
    fn finalize(self: Box<Self>, d: &mut jbk::creator::DirectoryPackCreator) {
        let n = self.store.len() as u32;
        for v in self.values {
            d.add_value_store(v);
        }
        let id = d.add_entry_store(self.store);
        d.create_index("main", Default::default(), 0.into(), id, n.into(), jbk::EntryIdx::from(0).into());
    }
}
/// A store of one entry, where entries do not matter.
pub fn any() -> One {
    let mut o = One::new(vec![], vec![Prop::new_uint("n")], None);
    o.add(vec![("n", jbk::Value::Unsigned(7))]);
    o
}

pub fn create(path: &str, mode: ConcatMode, comp: Compression, contents: Vec<(Vec<u8>, CompHint)>, dir: One) -> Vec<jbk::ContentAddress> {
    let mut c = jbk::creator::BasicCreator::new(path, mode, jbk::VendorId::new([1, 2, 3, 4]), comp, Arc::new(())).unwrap();
    let v = contents.into_iter().map(|(b, h)| c.add_content(Box::new(std::io::Cursor::new(b)), h).unwrap()).collect();
    c.finalize(Box::new(dir), vec![]).unwrap();
    v
}

pub fn bytes(c: &jbk::reader::Container, a: jbk::ContentAddress) -> Vec<u8> {
    use std::io::Read;
    let r = match c.get_bytes(a).unwrap().unwrap() {
        jbk::reader::MayMissPack::FOUND(r) => r.unwrap(),
        jbk::reader::MayMissPack::MISSING(_) => panic!("missing"),
    };
    let mut v = vec![];
    r.stream().read_to_end(&mut v).unwrap();
    v
}

pub struct Reader {
    pub index: jbk::reader::Index,
    pub builder: jbk::reader::builder::AnyBuilder,
}
impl Reader {
    pub fn new(c: &jbk::reader::Container) -> jbk::Result<Self> {
        let index = c.get_index_for_name("main")?.unwrap();
        let store = index.get_store(c.get_entry_storage())?;
        let builder = jbk::reader::builder::AnyBuilder::new(store, c.get_value_storage().as_ref())?;
        Ok(Reader { index, builder })
    }
    pub fn get(&self, i: u32, name: &str) -> jbk::Result<jbk::reader::RawValue> {
        use jbk::reader::{EntryTrait, Range};
        let e = self.index.get_entry(&self.builder, i.into())?.unwrap();
        Ok(e.get_value(name)?.unwrap())
    }
    pub fn array(&self, i: u32, name: &str) -> jbk::Result<Vec<u8>> {
        let r = self.get(i, name)?;
        Ok(r.as_vec()?.to_vec())
    }
}

pub fn crc(b: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for x in b {
        c ^= (*x as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x1EDC_6F41 } else { c << 1 };
        }
    }
    c
}

/// Numbers that do not compress, always the same.
pub fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            (s >> 24) as u8
        })
        .collect()
}
