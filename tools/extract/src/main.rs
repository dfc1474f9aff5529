// Mechanical extractor: /repo/src (real code, every run) + sidecar contracts -> one Verus crate.
// The statements of the functions are kept verbatim except for the rewrites listed in DESIGN.md;
// everything it drops or rewrites is reported in the JSON side output.
mod contracts;
mod emit;
mod inline;

use contracts::Contracts;
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};

pub struct Module {
    pub path: Vec<String>,
    pub file: PathBuf,
    pub src: String,
    pub children: Vec<Module>,
}

pub fn is_cfg_dropped(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if !a.path().is_ident("cfg") {
            return false;
        }
        let t = quote::quote!(#a).to_string();
        let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
        t.contains("cfg(test)") || t.contains("target_family=\"windows\"") || t.contains("cfg(windows)")
            || t.contains("cfg(not(unix))") || t.contains("cfg(not(target_family=\"unix\"))")
    })
}

fn load(file: &Path, path: Vec<String>, is_root: bool) -> Module {
    let src = fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
    let ast = syn::parse_file(&src).unwrap_or_else(|e| panic!("parse {}: {e}", file.display()));
    let stem = file.file_stem().unwrap().to_string_lossy().to_string();
    let dir = if is_root || stem == "mod" {
        file.parent().unwrap().to_path_buf()
    } else {
        file.parent().unwrap().join(&stem)
    };
    let mut children = vec![];
    for it in &ast.items {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() && !is_cfg_dropped(&m.attrs) {
                let n = m.ident.to_string();
                let a = dir.join(format!("{n}.rs"));
                let b = dir.join(&n).join("mod.rs");
                let f = if a.exists() { a } else { b };
                let mut p = path.clone();
                p.push(n);
                children.push(load(&f, p, false));
            }
        }
    }
    Module { path, file: file.to_path_buf(), src, children }
}

fn main() {
    // vp-extract SRC_DIR CONTRACTS_DIR PRELUDE.rs OUT.rs OUT.json [--external key]* [--smoke]
    let args: Vec<String> = std::env::args().collect();
    let src_dir = PathBuf::from(&args[1]);
    let cdir = PathBuf::from(&args[2]);
    let prelude = fs::read_to_string(&args[3]).unwrap();
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut smoke = false;
    let mut i = 6;
    while i < args.len() {
        match args[i].as_str() {
            "--external" => {
                external.insert(args[i + 1].clone());
                i += 1;
            }
            "--smoke" => smoke = true,
            x => panic!("bad arg {x}"),
        }
        i += 1;
    }
    let mut c = Contracts::default();
    let mut files: Vec<_> = fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        if f.extension().map(|e| e == "vc").unwrap_or(false) {
            contracts::parse(&fs::read_to_string(&f).unwrap(), &mut c);
        }
    }
    let mut root = load(&src_dir.join("main.rs"), vec![], true);
    let mut inlined = vec![];
    inline::run(&mut root, &c, &mut inlined);
    let mut out = emit::Out::new(c, external, smoke);
    out.inlined = inlined;
    let text = out.run(&root, &prelude);
    fs::write(&args[4], text).unwrap();
    fs::write(&args[5], out.json()).unwrap();
}
