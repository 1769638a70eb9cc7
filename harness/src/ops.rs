//! Operations of the public interface, in terms of the types of the reference model.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    rc::Rc,
};

use cosmian_crypto_core::FixedSizeCBytes;
use cosmian_findex::{
    Data, Index, IndexedValue, IndexedValueToKeywordsMap, Keyword, Keywords, Label, UserKey,
};

use crate::{
    model::{Assoc, Cred, Iv, Live},
    sim::{go, Bytes, FErr, Fx},
};

pub fn key(c: &Cred) -> UserKey {
    UserKey::try_from_bytes(c.key).expect("any 16 bytes are a key")
}

pub fn label(c: &Cred) -> Label {
    Label::from(c.label.clone())
}

fn to_iv(iv: &Iv) -> IndexedValue<Keyword, Data> {
    match iv {
        Iv::D(d) => IndexedValue::Data(Data::from(d.clone())),
        Iv::P(p) => IndexedValue::Pointer(Keyword::from(p.clone())),
    }
}

fn from_iv(iv: &IndexedValue<Keyword, Data>) -> Iv {
    match iv {
        IndexedValue::Data(d) => Iv::D(d.to_vec()),
        IndexedValue::Pointer(p) => Iv::P(p.to_vec()),
    }
}

pub fn to_map(assocs: &[Assoc]) -> IndexedValueToKeywordsMap {
    let mut m: HashMap<IndexedValue<Keyword, Data>, HashSet<Keyword>> = HashMap::new();
    for (k, iv) in assocs {
        m.entry(to_iv(iv)).or_default().insert(Keyword::from(k.clone()));
    }
    IndexedValueToKeywordsMap::from(m)
}

fn kws(k: Keywords) -> BTreeSet<Bytes> {
    k.into_iter().map(|k| k.to_vec()).collect()
}

pub async fn add(fx: &Fx, c: &Cred, assocs: &[Assoc]) -> Result<BTreeSet<Bytes>, FErr> {
    fx.add(&key(c), &label(c), to_map(assocs)).await.map(kws)
}

pub async fn del(fx: &Fx, c: &Cred, assocs: &[Assoc]) -> Result<BTreeSet<Bytes>, FErr> {
    fx.delete(&key(c), &label(c), to_map(assocs)).await.map(kws)
}

pub async fn write(fx: &Fx, c: &Cred, is_add: bool, assocs: &[Assoc]) -> Result<BTreeSet<Bytes>, FErr> {
    if is_add {
        add(fx, c, assocs).await
    } else {
        del(fx, c, assocs).await
    }
}

pub type Found = BTreeMap<Bytes, BTreeSet<Bytes>>;

/// Decision of the interruption callback.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cb {
    Continue,
    Stop,
    Fail,
}

pub const CB_ERROR: &str = "callback error 7f3";

/// Searches, recording what each call of the interruption callback receives.
pub async fn search_rounds(
    fx: &Fx,
    c: &Cred,
    keywords: &[Bytes],
    rounds: &Rc<RefCell<Vec<Live>>>,
    decide: impl Fn(usize) -> Cb,
) -> Result<Found, FErr> {
    let keywords: Keywords = keywords.iter().map(|k| Keyword::from(k.clone())).collect();
    let res = fx
        .search(&key(c), &label(c), keywords, &|m: HashMap<
            Keyword,
            HashSet<IndexedValue<Keyword, Data>>,
        >| {
            let r = m
                .iter()
                .map(|(k, s)| (k.to_vec(), s.iter().map(from_iv).collect()))
                .collect();
            rounds.borrow_mut().push(r);
            let d = decide(rounds.borrow().len() - 1);
            async move {
                match d {
                    Cb::Continue => Ok(false),
                    Cb::Stop => Ok(true),
                    Cb::Fail => Err(CB_ERROR.to_string()),
                }
            }
        })
        .await?;
    Ok(res
        .into_iter()
        .map(|(k, s)| (k.to_vec(), s.into_iter().map(|d| d.to_vec()).collect()))
        .collect())
}

pub async fn search(fx: &Fx, c: &Cred, keywords: &[Bytes]) -> Result<Found, FErr> {
    search_rounds(fx, c, keywords, &Rc::default(), |_| Cb::Continue).await
}

/// Compacts; `filter` receives the data read and returns the data to keep.
pub async fn compact_with(
    fx: &Fx,
    old: &Cred,
    new: &Cred,
    rate: f64,
    filter: impl Fn(BTreeSet<Bytes>) -> Result<BTreeSet<Bytes>, String>,
) -> Result<(), FErr> {
    fx.compact(
        &key(old),
        &key(new),
        &label(old),
        &label(new),
        rate,
        &|data: HashSet<Data>| {
            let res = filter(data.into_iter().map(|d| d.to_vec()).collect())
                .map(|s| s.into_iter().map(Data::from).collect::<HashSet<_>>());
            async move { res }
        },
    )
    .await
}

pub async fn compact(fx: &Fx, old: &Cred, new: &Cred, rate: f64) -> Result<(), FErr> {
    compact_with(fx, old, new, rate, Ok).await
}

/// Each way the library offers to make a keyword, a piece of data or a label from a text.
pub const TEXT_WAYS: usize = 3;

fn text<T: From<Vec<u8>> + for<'a> From<&'a [u8]> + for<'a> From<&'a str>>(s: &str, way: usize) -> T {
    match way {
        0 => T::from(s),
        1 => T::from(s.as_bytes()),
        _ => T::from(s.as_bytes().to_vec()),
    }
}

/// Each way to make the map given to an add or a delete.
pub const MAP_WAYS: usize = 5;

type Value = IndexedValue<Keyword, Data>;

fn text_map(list: Vec<(Value, HashSet<Keyword>)>, way: usize) -> IndexedValueToKeywordsMap {
    let sets = |l: Vec<(Value, HashSet<Keyword>)>| l.into_iter().map(|(v, k)| (v, Keywords::from(k)));
    match way {
        0 => list.into_iter().collect(),
        1 => sets(list).collect(),
        2 => IndexedValueToKeywordsMap::from(list.into_iter().collect::<HashMap<_, _>>()),
        3 => IndexedValueToKeywordsMap::from(sets(list).collect::<HashMap<_, _>>()),
        _ => {
            let all: [(Value, Keywords); 2] = sets(list)
                .collect::<Vec<_>>()
                .try_into()
                .expect("two values");
            IndexedValueToKeywordsMap::from(all)
        }
    }
}

/// A text used as keyword, data, pointer and label through every conversion the library offers.
pub fn text_life(fx: &Fx, s: &str, write_way: usize, read_way: usize, map_way: usize) -> Result<(), String> {
    let bytes = s.as_bytes();
    let k: Keyword = text(s, write_way);
    let v: Data = text(s, write_way);
    let l: Label = text(s, write_way);
    let whole = |what: &str, x: &[u8]| {
        if x == bytes {
            Ok(())
        } else {
            Err(format!("{what} made from {s:?} is {x:?}"))
        }
    };
    whole("the keyword", &k)?;
    whole("the data", &v)?;
    whole("the label", &l)?;
    whole("the keyword", k.as_ref())?;
    whole("the data", v.as_ref())?;
    whole("the label", l.as_ref())?;
    whole("the vector of the keyword", &Vec::<u8>::from(k.clone()))?;
    whole("the vector of the data", &Vec::<u8>::from(v.clone()))?;
    whole("the vector of the label", &Vec::<u8>::from(l.clone()))?;
    let stored = Vec::<u8>::from(&IndexedValue::<Keyword, Data>::Data(v.clone()));
    if IndexedValue::<Keyword, Data>::try_from(stored.as_slice()).ok() != Some(IndexedValue::Data(v.clone())) {
        return Err(format!("the data {s:?} is not what its bytes are read as"));
    }
    let key = UserKey::try_from_bytes([9; 16]).map_err(|e| e.to_string())?;
    let from = Keyword::from("some keyword pointing to it");
    let list = vec![
        (IndexedValue::Data(v.clone()), [k.clone()].into()),
        (IndexedValue::Pointer(k.clone()), [from.clone()].into()),
    ];
    let map = text_map(list.clone(), map_way);
    if map.len() != 2 || list.iter().any(|(v, k)| map.get(v).map(|x| HashSet::from(x.clone())) != Some(k.clone())) {
        return Err(format!("the map made from {s:?} is not the list it is made from"));
    }
    let new = go(fx.add(&key, &l, map)).map_err(|e| format!("add: {e}"))?;
    if HashSet::from(new) != HashSet::from([k.clone(), from.clone()]) {
        return Err(format!("the keyword {s:?} is not reported as new"));
    }
    // Read back through another conversion.
    let (k, v, l): (Keyword, Data, Label) = (text(s, read_way), text(s, read_way), text(s, read_way));
    for sought in [&k, &from] {
        let asked = match read_way {
            0 => {
                // The keywords are made from static strings.
                let s: &'static str = Box::leak(String::from_utf8_lossy(sought).into_owned().into_boxed_str());
                let asked = [s].into_iter().collect::<Keywords>();
                // SAFETY: made by `Box::leak` above, and the keywords own a copy.
                unsafe { drop(Box::from_raw(std::ptr::from_ref(s).cast_mut())) };
                asked
            }
            1 => [sought.clone()].into_iter().collect(),
            _ => Keywords::from(HashSet::from([sought.clone()])),
        };
        let found = go(fx.search(&key, &l, asked, &|_| async { Ok(false) })).map_err(|e| format!("search: {e}"))?;
        let want = HashMap::from([(sought.clone(), HashSet::from([v.clone()]))]);
        if *found != want || found.clone().into_iter().collect::<HashMap<_, _>>() != want || HashMap::from(found) != want {
            return Err(format!("{s:?} is not found under the keyword {sought:?}"));
        }
    }
    let list = vec![
        (IndexedValue::Data(v), [k.clone()].into()),
        (IndexedValue::Pointer(k.clone()), [from].into()),
    ];
    let new = go(fx.delete(&key, &l, text_map(list, map_way))).map_err(|e| format!("delete: {e}"))?;
    let found = go(fx.search(&key, &l, [k.clone()].into_iter().collect(), &|_| async { Ok(false) }))
        .map_err(|e| format!("search: {e}"))?;
    if !new.is_empty() || HashMap::from(found) != HashMap::from([(k, HashSet::new())]) {
        return Err(format!("{s:?} is still there once deleted"));
    }
    Ok(())
}
