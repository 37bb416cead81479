//! Reads all leaves of a committed trie straight from the database (the trie library has no iterator).
use rlp::{Prototype, Rlp};

pub fn leaves<D: cita_trie::DB>(db: &D, root: &[u8]) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let mut out = vec![];
    let data = db.get(root).map_err(|e| e.to_string())?.ok_or("root is not in the database")?;
    walk(db, &data, vec![], &mut out)?;
    Ok(out)
}

fn walk<D: cita_trie::DB>(
    db: &D,
    data: &[u8],
    path: Vec<u8>,
    out: &mut Vec<(Vec<u8>, Vec<u8>)>,
) -> Result<(), String> {
    let r = Rlp::new(data);
    let e = |x: rlp::DecoderError| x.to_string();
    match r.prototype().map_err(e)? {
        Prototype::Data(0) => Ok(()),
        Prototype::List(2) => {
            let (mut p, leaf) = compact(r.at(0).map_err(e)?.data().map_err(e)?);
            let mut path = path;
            path.append(&mut p);
            if leaf {
                out.push((bytes_of(&path), r.at(1).map_err(e)?.data().map_err(e)?.to_vec()));
                Ok(())
            } else {
                child(db, &r.at(1).map_err(e)?, path, out)
            }
        }
        Prototype::List(17) => {
            for i in 0..16 {
                let mut p = path.clone();
                p.push(i as u8);
                child(db, &r.at(i).map_err(e)?, p, out)?;
            }
            let v = r.at(16).map_err(e)?;
            if !v.is_empty() {
                out.push((bytes_of(&path), v.data().map_err(e)?.to_vec()));
            }
            Ok(())
        }
        _ => Err("unexpected trie node".to_owned()),
    }
}

fn child<D: cita_trie::DB>(
    db: &D,
    r: &Rlp,
    path: Vec<u8>,
    out: &mut Vec<(Vec<u8>, Vec<u8>)>,
) -> Result<(), String> {
    if r.is_data() && r.size() == 32 {
        let h = r.data().map_err(|e| e.to_string())?;
        let data = db.get(h).map_err(|e| e.to_string())?.ok_or("trie node is not in the database")?;
        walk(db, &data, path, out)
    } else {
        walk(db, r.as_raw(), path, out)
    }
}

fn compact(d: &[u8]) -> (Vec<u8>, bool) {
    let mut n: Vec<u8> = vec![];
    for b in d {
        n.push(b >> 4);
        n.push(b & 15);
    }
    let flag = n[0];
    let skip = if flag & 1 == 1 { 1 } else { 2 };
    (n[skip..].to_vec(), flag & 2 == 2)
}

fn bytes_of(nibbles: &[u8]) -> Vec<u8> {
    nibbles.chunks(2).map(|c| if c.len() == 2 { c[0] << 4 | c[1] } else { c[0] }).collect()
}
