//! Access to private parts through the guarded hooks in /repo (`--cfg panacea_verif`).
//! Where the tree does not build with the hooks (a private field they name was renamed, say), the harness is built
//! without them: what the hooks show is then not looked at, and the database is judged by reading it back.
use panacea::naive_hash::NaiveHash;
use panacea::oram::{ClientQuery, Server};
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::RLWECiphertext;

pub const HOOKED: bool = cfg!(panacea_verif);

type Parts<'a> = (&'a [RGSWCiphertext], &'a RGSWCiphertext, &'a RLWECiphertext);

/// A copy of the encrypted database; None without the hooks.
pub fn data(s: &Server) -> Option<Vec<Vec<RLWECiphertext>>> {
    #[cfg(panacea_verif)]
    return Some(s.verif_data());
    #[cfg(not(panacea_verif))]
    {
        let _ = s;
        None
    }
}

pub fn parts(q: &ClientQuery) -> Option<Parts<'_>> {
    #[cfg(panacea_verif)]
    return Some(q.verif_parts());
    #[cfg(not(panacea_verif))]
    {
        let _ = q;
        None
    }
}

/// The hash given by a permutation; without the hooks one that the crate draws.
pub fn hash_of(table: Vec<usize>, h: usize, items: usize) -> NaiveHash {
    #[cfg(panacea_verif)]
    return NaiveHash::verif_from_tables(table, h, items);
    #[cfg(not(panacea_verif))]
    {
        let _ = table;
        NaiveHash::new(h, items)
    }
}
