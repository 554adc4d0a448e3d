// Dimensions at which contracts on generic code are instantiated: a fixed base set, plus the
// neighbours of every integer literal that occurs in the crate's (non-test) source, so that code
// which singles out a size is met at that size.
use std::{collections::BTreeSet, env, fs, path::{Path, PathBuf}};
fn walk(p: &Path, out: &mut Vec<PathBuf>) { if let Ok(d) = fs::read_dir(p) { for e in d.flatten() { let p = e.path(); let n = e.file_name().to_string_lossy().to_string();
    if p.is_dir() { if n != "tests" { walk(&p, out); } } else if n.ends_with(".rs") && n != "tests.rs" { out.push(p); } } } }
fn literals(s: &str) -> Vec<usize> {
    // strip comments and #[cfg(test)] tails, then collect plain integer literals
    let s = match s.find("#[cfg(test)]") { Some(i) if s[i..].contains("mod test") && s[i..].contains("{") => &s[..i], _ => s };
    let mut v = vec![];
    for line in s.lines() {
        let line = line.split("//").next().unwrap();
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_' || b[i - 1] == '.')) {
                let mut j = i; let mut t = String::new();
                while j < b.len() && (b[j].is_ascii_digit() || b[j] == '_') { if b[j] != '_' { t.push(b[j]); } j += 1; }
                let float = j < b.len() && b[j] == '.' && !(j + 1 < b.len() && b[j + 1] == '.');
                if !float { if let Ok(n) = t.parse::<usize>() { v.push(n); } }
                i = j;
            } else { i += 1; }
        }
    }
    v
}
fn main() {
    let repo = PathBuf::from(env::var("SX_REPO_SRC").unwrap_or_else(|_| "/repo/src".into()));
    println!("cargo:rerun-if-changed={}", repo.display());
    println!("cargo:rerun-if-env-changed=SX_REPO_SRC");
    let mut files = vec![]; walk(&repo, &mut files);
    let mut lits = BTreeSet::new();
    for f in &files { println!("cargo:rerun-if-changed={}", f.display()); if let Ok(s) = fs::read_to_string(f) { for n in literals(&s) { lits.insert(n); } } }
    let mut vd: BTreeSet<usize> = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17].into();
    let base: BTreeSet<usize> = (0..=9).chain([12, 16, 17]).collect();
    let mut new = BTreeSet::new();
    for &l in &lits { if l >= 9 && l <= 64 { for d in [l.wrapping_sub(1), l, l + 1] { if !base.contains(&d) { new.insert(d); } } } }
    let new: Vec<usize> = new.into_iter().take(18).collect();
    vd.extend(new.iter().copied());
    let mut md: Vec<(usize, usize)> = vec![(0, 0), (0, 3), (3, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (4, 4), (5, 2), (2, 5), (5, 5), (6, 1), (1, 6), (4, 6), (6, 4)];
    for l in lits.iter().copied().filter(|l| *l >= 7 && *l <= 40) { for s in [(l, 1), (1, l), (l, 2), (2, l), (l + 1, 1), (1, l + 1), (l + 1, 2), (2, l + 1)] { if !md.contains(&s) && md.len() < 46 { md.push(s); } } }
    let mut s = String::new();
    let vl = |p: &dyn Fn(usize) -> bool| vd.iter().filter(|n| p(**n)).map(|n| format!("$f::<{}>($($a),*);", n)).collect::<String>();
    s += &format!("#[macro_export] macro_rules! vdims {{ ($f:ident $(, $a:expr)*) => {{ {} }} }}\n", vl(&|_| true));
    s += &format!("#[macro_export] macro_rules! vdims1 {{ ($f:ident $(, $a:expr)*) => {{ {} }} }}\n", vl(&|n| n >= 1));
    s += &format!("#[macro_export] macro_rules! vdims_t {{ ($f:ident, $t:ty $(, $a:expr)*) => {{ {} }} }}\n", vd.iter().map(|n| format!("$f::<$t, {}>($($a),*);", n)).collect::<String>());
    let ml = |p: &dyn Fn(usize, usize) -> bool| md.iter().filter(|(m, n)| p(*m, *n)).map(|(m, n)| format!("$f::<{}, {}>($($a),*);", m, n)).collect::<String>();
    s += &format!("#[macro_export] macro_rules! mdims {{ ($f:ident $(, $a:expr)*) => {{ {} }} }}\n", ml(&|_, _| true));
    s += &format!("#[macro_export] macro_rules! mdims1 {{ ($f:ident $(, $a:expr)*) => {{ {} }} }}\n", ml(&|m, n| m >= 1 && n >= 1));
    s += &format!("#[macro_export] macro_rules! mdims_t {{ ($f:ident, $t:ty $(, $a:expr)*) => {{ {} }} }}\n", md.iter().map(|(m, n)| format!("$f::<$t, {}, {}>($($a),*);", m, n)).collect::<String>());
    // reduced sets for contract families with very many functions: small sizes plus the sizes taken from literals
    let lit_md: BTreeSet<(usize, usize)> = md.iter().copied().skip(22).collect();
    s += &format!("#[macro_export] macro_rules! vdims_s {{ ($f:ident $(, $a:expr)*) => {{ {} }} }}\n", vl(&|n| [0, 1, 2, 3, 4, 5, 8].contains(&n) || new.contains(&n)));
    s += &format!("#[macro_export] macro_rules! mdims_s {{ ($f:ident $(, $a:expr)*) => {{ {} }} }}\n", ml(&|m, n| [(0, 3), (3, 0), (1, 1), (1, 3), (2, 2), (3, 2), (3, 3), (4, 2), (4, 4)].contains(&(m, n)) || lit_md.contains(&(m, n))));
    let desc = format!("vector lengths {:?}; matrix shapes {:?}", vd, md);
    s += &format!("pub const DIMS: &str = \"{}\";\n", desc);
    fs::write(PathBuf::from(env::var("OUT_DIR").unwrap()).join("dims.rs"), s).unwrap();
}
