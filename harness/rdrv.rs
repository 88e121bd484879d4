//! Driver for the Rust implementation: same commands and answers as qdrv.cpp.
//! A panic is reported as {"r":"panic"}; commands this driver does not know as {"r":"noop"}.
use qrllib::rust_wrapper::dilithium::dilithium as dil;
use qrllib::rust_wrapper::kyber::kyber as kyb;
use qrllib::rust_wrapper::qrl::qrl_address_format::AddrFormatType;
use qrllib::rust_wrapper::qrl::qrl_descriptor::{QRLDescriptor, SignatureType};
use qrllib::rust_wrapper::qrl::xmss_base::{Sign, XMSSBaseTrait};
use qrllib::rust_wrapper::qrl::xmss_basic::XMSSBasic;
use qrllib::rust_wrapper::qrl::xmss_fast::XMSSFast;
use qrllib::rust_wrapper::qrl::xmss_pool::XMSSPool;
use qrllib::rust_wrapper::qrl::{hashing, misc, qrl_helper};
use qrllib::rust_wrapper::xmss_alt::hash_functions::HashFunction;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

// bytes in use, for "rep"
struct Count;
static USED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { USED.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { USED.fetch_add(l.size(), Relaxed); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { USED.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { USED.fetch_add(n, Relaxed); USED.fetch_sub(l.size(), Relaxed); System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Count = Count;

type B = Vec<u8>;
enum X { F(XMSSFast), S(XMSSBasic) }
macro_rules! on { ($x:expr, $v:ident => $e:expr) => { match $x { X::F($v) => $e, X::S($v) => $e } } }

fn hexs(b: &[u8]) -> String { if b.is_empty() { return "-".into(); } b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> B { if s == "-" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn num(s: &str) -> u64 { s.parse().unwrap() }
struct J(String);
impl J {
    fn k(&mut self, n: &str) { if self.0.len() > 1 { self.0.push(','); } self.0 += &format!("\"{}\":", n); }
    fn i(&mut self, n: &str, v: u64) -> &mut J { self.k(n); self.0 += &v.min(2147483647).to_string(); self }
    fn b(&mut self, n: &str, v: bool) -> &mut J { self.k(n); self.0 += if v { "true" } else { "false" }; self }
    fn h(&mut self, n: &str, v: &[u8]) -> &mut J { self.k(n); self.0 += &format!("\"{}\"", hexs(v)); self }
    fn t(&mut self, n: &str, v: &str) -> &mut J { self.k(n); self.0 += &format!("\"{}\"", v); self }
    fn raw(&mut self, n: &str, v: &str) -> &mut J { self.k(n); self.0 += v; self }
    fn end(&self) -> String { format!("{}}}", self.0) }
}
struct Fail(&'static str);
type R = Result<(), Fail>;
fn e<T, E>(r: Result<T, E>) -> Result<T, Fail> { r.map_err(|_| Fail("err")) }

fn arg(j: &mut J, v: &[(&str, &B)]) { let mut x = J("{".into()); for (n, b) in v { x.h(n, b); } let t = x.end(); j.raw("arg", &t); }
struct Backup { ext: B, hex: String, mn: String, seed: B, h: u8, hf: HashFunction, fm: AddrFormatType }
#[derive(Default)]
struct World { b: Mutex<HashMap<String, Backup>>, r: Mutex<HashMap<String, B>>, s: Mutex<HashMap<String, Arc<Mutex<X>>>>, p: Mutex<HashMap<String, Arc<Mutex<XMSSPool>>>>, d: Mutex<HashMap<String, Arc<Mutex<dil::Dilithium>>>>, k: Mutex<HashMap<String, Arc<Mutex<kyb::Kyber>>>> }
fn hf_of(n: u64) -> Result<HashFunction, Fail> { match n { 0 => Ok(HashFunction::SHA2_256), 1 => Ok(HashFunction::Shake128), 2 => Ok(HashFunction::Shake256), _ => Err(Fail("noop")) } }
fn utf(b: B) -> Result<String, Fail> { String::from_utf8(b).map_err(|_| Fail("noop")) }
fn text(b: String) -> B { b.into_bytes() }

fn facts<T: XMSSBaseTrait>(x: &T, j: &mut J, w: u32) {
    j.i("idx", x.get_index() as u64).i("rem", rem_of(x.get_index(), x.get_number_signatures(), || x.get_remaining_signatures())).i("nsig", x.get_number_signatures() as u64).i("height", x.get_height() as u64);
    j.h("sk", x.get_sk()).h("pk", &x.get_pk()).h("root", &x.get_root()).h("pkseed", &x.get_pk_seed()).h("skseed", &x.get_sk_seed());
    j.h("skprf", &x.get_sk_prf()).h("ext", &x.get_extended_seed()).h("seed0", x.get_seed()).h("desc", &x.get_descriptor_bytes());
    j.i("sigsz", x.get_signature_size(Some(w)) as u64).i("sksz", T::get_secret_key_size() as u64).i("pksz", T::get_public_key_size() as u64);
    let d = x.get_descriptor();
    dnum(&d, j);
    match x.get_address() { Ok(a) => { j.h("addr", &a); } Err(_) => { j.t("addr", "none"); } }
}
fn dnum(d: &QRLDescriptor, j: &mut J) { j.i("dhf", *d.get_hash_function() as u64).i("dst", *d.get_signature_type() as u64).i("dh", d.get_height() as u64).i("dfmt", d.get_addr_format_type().clone() as u64); }
fn dfacts(d: QRLDescriptor, j: &mut J) { j.i("hf", *d.get_hash_function() as u64).i("st", *d.get_signature_type() as u64).i("h", d.get_height() as u64).i("fmt", d.get_addr_format_type().clone() as u64).h("bytes", &d.get_bytes()); }
fn verify(m: &B, s: &B, p: &B, w: u32) -> (bool, bool) {
    let mut mm = m.clone();
    let v = XMSSFast::verify(&mut mm, s, p, Some(w)).is_ok();
    (v, mm == *m)
}
fn pattern(n: usize, tag: usize) -> B { (0..n).map(|i| (i.wrapping_mul(131) + (i >> 8) * 7 + (i >> 16) * 3 + tag) as u8).collect() }

impl World {
    fn get(&self, h: &str) -> Result<Arc<Mutex<X>>, Fail> { self.s.lock().unwrap().get(h).cloned().ok_or(Fail("nohandle")) }
    fn put(&self, h: &str, x: X) { self.s.lock().unwrap().insert(h.into(), Arc::new(Mutex::new(x))); }
    fn op(&self, a: &[&str], j: &mut J) -> R {
        match a[0] {
            "xnew" => {
                let seed = unhex(a[3]); let h = num(a[4]) as u8; let hf = hf_of(num(a[5]))?; let w = num(a[7]) as u32;
                if num(a[6]) != 0 { return Err(Fail("noop")); }
                let x = if a[2] == "fast" { X::F(e(XMSSFast::new(seed, h, Some(hf), Some(AddrFormatType::SHA256_2X), Some(w)))?) }
                        else { X::S(e(XMSSBasic::new(seed, h, hf, AddrFormatType::SHA256_2X, Some(w)))?) };
                on!(&x, v => facts(v, j, w)); j.b("inok", true);
                self.put(a[1], x); Ok(())
            }
            "xext" => { let ext = unhex(a[2]); let c = ext.clone(); let f = e(XMSSFast::from_extended_seed(&ext))?; facts(&f, j, 16); j.b("inok", c == ext); self.put(a[1], X::F(f)); Ok(()) }
            "xexthex" => { let f = e(XMSSFast::from_extended_seed(&e(misc::hstr2bin(&utf(unhex(a[2]))?))?))?; facts(&f, j, 16); self.put(a[1], X::F(f)); Ok(()) }
            "xextmn" => { let f = e(XMSSFast::from_extended_seed(&e(misc::mnemonic2bin(&utf(unhex(a[2]))?))?))?; facts(&f, j, 16); self.put(a[1], X::F(f)); Ok(()) }
            "xbak" => { // what a wallet keeps of a signer, as text and as bytes; xres: a signer rebuilt from it
                let x = self.get(a[2])?; let g = x.lock().unwrap();
                let (ext, seed, h, hf, fm) = on!(&*g, v => (v.get_extended_seed(), v.get_seed().clone(), v.get_height(), v.get_descriptor().get_hash_function().clone(), v.get_descriptor().get_addr_format_type().clone()));
                let b = Backup { hex: misc::bin2hstr(&ext, 0), mn: e(misc::bin2mnemonic(&ext))?, ext, seed, h, hf, fm };
                j.h("ext", &b.ext).h("hext", b.hex.as_bytes()).h("mn", b.mn.as_bytes());
                self.b.lock().unwrap().insert(a[1].into(), b); Ok(())
            }
            "xres" => {
                let m = self.b.lock().unwrap(); let b = m.get(a[2]).ok_or(Fail("nohandle"))?;
                let f = match a[3] {
                    "raw" => e(XMSSFast::from_extended_seed(&b.ext))?,
                    "hex" => e(XMSSFast::from_extended_seed(&e(misc::hstr2bin(&b.hex))?))?,
                    "mn" => e(XMSSFast::from_extended_seed(&e(misc::mnemonic2bin(&b.mn))?))?,
                    _ => e(XMSSFast::new(b.seed.clone(), b.h, Some(b.hf.clone()), Some(b.fm.clone()), None))?,
                };
                facts(&f, j, 16); self.put(a[1], X::F(f)); Ok(())
            }
            "xinit" => { let x = self.get(a[1])?; let mut g = x.lock().unwrap(); let w = num(a[2]) as u32; match &mut *g { X::F(f) => { e(f.initialize_tree(Some(w)))?; facts(f, j, w); Ok(()) } _ => Err(Fail("noop")) } }
            "xget" => { let x = self.get(a[1])?; let g = x.lock().unwrap(); on!(&*g, v => facts(v, j, num(a[2]) as u32)); Ok(()) }
            "xidx" => { let x = self.get(a[1])?; let g = x.lock().unwrap(); on!(&*g, v => j.i("idx", v.get_index() as u64).i("rem", rem_of(v.get_index(), v.get_number_signatures(), || v.get_remaining_signatures()))); Ok(()) }
            "xmove" => { let x = self.s.lock().unwrap().remove(a[2]).ok_or(Fail("nohandle"))?; { let g = x.lock().unwrap(); on!(&*g, v => j.i("idx", v.get_index() as u64).i("rem", rem_of(v.get_index(), v.get_number_signatures(), || v.get_remaining_signatures())).h("pk", &v.get_pk())); } self.s.lock().unwrap().insert(a[1].into(), x); Ok(()) }
            "xfree" => { self.s.lock().unwrap().remove(a[1]); Ok(()) }
            "xset" => {
                let x = self.get(a[1])?; let mut g = x.lock().unwrap(); let n = num(a[2]) as u32;
                j.i("pre", on!(&*g, v => v.get_index()) as u64);
                let r = on!(&mut *g, v => v.set_index(n));
                j.b("done", r.is_ok()); on!(&*g, v => j.i("idx", v.get_index() as u64).i("rem", rem_of(v.get_index(), v.get_number_signatures(), || v.get_remaining_signatures())));
                if let Ok(k) = r { j.i("ret", k as u64); }
                Ok(())
            }
            "xsign" => {
                let x = self.get(a[1])?; let mut g = x.lock().unwrap(); let m = unhex(a[2]); let c = m.clone();
                j.i("pre", on!(&*g, v => v.get_index()) as u64);
                let r = on!(&mut *g, v => v.sign(&m));
                j.b("done", r.is_ok()); on!(&*g, v => j.i("idx", v.get_index() as u64).i("rem", rem_of(v.get_index(), v.get_number_signatures(), || v.get_remaining_signatures()))); j.b("inok", m == c);
                if let Ok(sig) = r {
                    j.h("sig", &sig);
                    if a.len() > 3 {
                        let w = num(a[3]) as u32; let pk = on!(&*g, v => v.get_pk());
                        j.b("ver", verify(&m, &sig, &pk, w).0).h("pk", &pk).i("siglen", sig.len() as u64).i("sigsz", on!(&*g, v => v.get_signature_size(Some(w))) as u64);
                        j.i("hfs", XMSSFast::get_height_from_sig_size(sig.len(), Some(w)).map(|x| x as u64).unwrap_or(999)).i("height", on!(&*g, v => v.get_height()) as u64);
                    }
                }
                Ok(())
            }
            "xsignbig" => {
                let x = self.get(a[1])?; let mut g = x.lock().unwrap(); let m = pattern(num(a[2]) as usize, num(a[3]) as usize); let c = m.clone(); let w = num(a[4]) as u32;
                j.i("pre", on!(&*g, v => v.get_index()) as u64);
                let sig = e(on!(&mut *g, v => v.sign(&m)))?; let pk = on!(&*g, v => v.get_pk());
                let mut m2 = m.clone(); if let Some(l) = m2.last_mut() { *l ^= 1; } else { m2.push(0); }
                let mut m3 = m.clone(); m3.push(0);
                j.b("ver", verify(&m, &sig, &pk, w).0).b("ver2", verify(&m2, &sig, &pk, w).0).b("ver3", verify(&m3, &sig, &pk, w).0).b("inok", m == c).i("siglen", sig.len() as u64).h("sig", &sig).h("pk", &pk).i("idx", on!(&*g, v => v.get_index()) as u64);
                j.i("hfs", XMSSFast::get_height_from_sig_size(sig.len(), Some(w)).map(|x| x as u64).unwrap_or(999)).i("height", on!(&*g, v => v.get_height()) as u64).b("done", true);
                Ok(())
            }
            "verify" => {
                let (m, s, p, w) = (unhex(a[1]), unhex(a[2]), unhex(a[3]), num(a[4]) as u32); let (s0, p0) = (s.clone(), p.clone());
                let (v1, i1) = verify(&m, &s, &p, w); let (v2, i2) = verify(&m, &s, &p, w);
                j.b("v", v1).b("same", v1 == v2).b("inok", i1 && i2 && s == s0 && p == p0); Ok(())
            }
            "xwalk" => {
                let x = self.get(a[1])?; let mut g = x.lock().unwrap(); let (to, w, m) = (num(a[2]) as u32, num(a[3]) as u32, unhex(a[4]));
                let pk = on!(&*g, v => v.get_pk()); let start = on!(&*g, v => v.get_index()); let (mut bad, mut first) = (0u64, 0u64);
                for i in start..to {
                    let s = e(on!(&mut *g, v => v.sign(&m)))?;
                    if !(verify(&m, &s, &pk, w).0 && s[0..4] == i.to_be_bytes()) { if bad == 0 { first = i as u64; } bad += 1; }
                }
                j.i("pre", start as u64).i("idx", on!(&*g, v => v.get_index()) as u64).i("bad", bad).i("firstbad", first).b("done", true); Ok(())
            }
            "hfs" => { j.i("h", e(XMSSFast::get_height_from_sig_size(num(a[1]) as usize, Some(num(a[2]) as u32)))? as u64); Ok(()) }
            "basesz" => { j.i("n", XMSSFast::calculate_signature_base_size(Some(num(a[1]) as u32)) as u64); Ok(()) }
            "dbytes" => { dfacts(e(QRLDescriptor::from_bytes(&unhex(a[1])))?, j); Ok(()) }
            "dext" => { dfacts(e(QRLDescriptor::from_extended_seed(&unhex(a[1])))?, j); Ok(()) }
            "dpk" => { dfacts(e(QRLDescriptor::from_extended_pk(&unhex(a[1])))?, j); Ok(()) }
            "dmake" => { if num(a[2]) != 0 || num(a[4]) != 0 { return Err(Fail("noop")); } dfacts(QRLDescriptor::new(hf_of(num(a[1]))?, SignatureType::XMSS, num(a[3]) as u8, AddrFormatType::SHA256_2X), j); Ok(()) }
            "addr" => { let p = unhex(a[1]); let c = p.clone(); j.h("a", &e(qrl_helper::get_address(&p))?).b("inok", p == c); Ok(()) }
            "addrok" => { let p = unhex(a[1]); let c = p.clone(); j.b("v", qrl_helper::address_is_valid(&p)).b("inok", p == c); Ok(()) }
            "hex" => { let p = unhex(a[1]); let c = p.clone(); j.h("t", &text(misc::bin2hstr(&p, num(a[2]) as u32))).b("inok", p == c); Ok(()) }
            "hexs" => { j.h("t", &text(misc::binstr2hstr(&utf(unhex(a[1]))?, num(a[2]) as u32))).b("inok", true); Ok(()) }
            "unhex" => { j.h("b", &e(misc::hstr2bin(&utf(unhex(a[1]))?))?); Ok(()) }
            "str2bin" => { j.h("b", &misc::str2bin(&utf(unhex(a[1]))?)); Ok(()) }
            "mn" => { let p = unhex(a[1]); let c = p.clone(); j.h("t", &text(e(misc::bin2mnemonic(&p))?)).b("inok", p == c); Ok(()) }
            "unmn" => { j.h("b", &e(misc::mnemonic2bin(&utf(unhex(a[1]))?))?); Ok(()) }
            "shake128" => { let p = unhex(a[2]); let c = p.clone(); j.h("d", &hashing::shake128(num(a[1]) as usize, &p)).b("inok", p == c); Ok(()) }
            "shake256" => { let p = unhex(a[2]); let c = p.clone(); j.h("d", &hashing::shake256(num(a[1]) as usize, &p)).b("inok", p == c); Ok(()) }
            "sha2" => { let p = unhex(a[1]); let c = p.clone(); j.h("d", &hashing::sha2_256(&p)).b("inok", p == c); Ok(()) }
            "sha2n" => { let p = unhex(a[1]); let c = p.clone(); j.h("d", &e(hashing::sha2_256_n(&p, num(a[2]) as usize))?).b("inok", p == c); Ok(()) }
            "hcs" => {
                let s = unhex(a[1]); let c = s.clone();
                let r = misc::get_hash_chain_seed(&s, num(a[2]) as u32, num(a[3]) as u32);
                let o: Vec<String> = r.iter().map(|x| format!("\"{}\"", hexs(x))).collect();
                j.raw("seeds", &format!("[{}]", o.join(","))).b("inok", s == c); Ok(())
            }
            "hcsat" => {
                let s = unhex(a[1]); let c = s.clone(); let at = unhex(a[4]);
                let r = misc::get_hash_chain_seed(&s, num(a[2]) as u32, num(a[3]) as u32);
                let o: Vec<String> = at.chunks(4).map(|b| {
                    let k = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
                    format!("\"{}\"", if k < r.len() { hexs(&r[k]) } else { String::new() })
                }).collect();
                j.i("count", r.len() as u64).raw("seeds", &format!("[{}]", o.join(","))).b("inok", s == c); Ok(())
            }
            "rep" => {
                let n = num(a[1]); let t = utf(unhex(a[2]))?; let mut bad = 0u64;
                let mut go = |k: u64| { for _ in 0..k { for c in t.split('\n') { if !self.run(c).contains("\"r\":\"ok\"") { bad += 1; } } } USED.load(Relaxed) as u64 };
                let m0 = go(5); let m1 = go(n); let m2 = go(n);
                j.i("d1", m1.saturating_sub(m0)).i("d2", m2.saturating_sub(m1)).i("refused", bad); Ok(())
            }
            "par" => {
                let n = num(a[1]) as usize;
                let ready = std::sync::atomic::AtomicUsize::new(0);
                let scripts: Vec<String> = (0..n).map(|i| String::from_utf8(unhex(a[2 + i])).unwrap()).collect();
                let outs: Vec<Vec<String>> = std::thread::scope(|s| {
                    let hs: Vec<_> = scripts.iter().map(|sc| { let ready = &ready; s.spawn(move || {
                        ready.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        while ready.load(std::sync::atomic::Ordering::SeqCst) < n {}
                        sc.lines().map(|l| self.run(l)).collect::<Vec<_>>() }) }).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let o: Vec<String> = outs.iter().map(|t| format!("[{}]", t.join(","))).collect();
                j.raw("out", &format!("[{}]", o.join(","))); Ok(())
            }
            "pnew" => { let p = e(XMSSPool::new(unhex(a[2]), num(a[3]) as u8, num(a[4]) as usize, num(a[5]) as usize))?; j.b("done", true).b("closed", false).b("fake", false).h("startle", &num(a[4]).to_le_bytes()); self.p.lock().unwrap().insert(a[1].into(), Arc::new(Mutex::new(p))); Ok(()) }
            "pnext" => {
                let p = self.p.lock().unwrap().get(a[1]).cloned().ok_or(Fail("nohandle"))?; let mut g = p.lock().unwrap();
                j.t("what", "next");
                match g.get_next_tree() {
                    Ok(mut t) => {
                        j.t("kind", "tree").h("seed", t.get_seed()).h("pk", &t.get_pk()).i("idx", t.get_index() as u64).i("height", t.get_height() as u64).h("ext", &t.get_extended_seed()).h("sk", t.get_sk());
                        let m = vec![0x70u8; 4]; let sig = e(t.sign(&m))?; j.h("sig", &sig);
                    }
                    Err(_) => { j.t("kind", "error"); }
                }
                Ok(())
            }
            "pavail" => { let p = self.p.lock().unwrap().get(a[1]).cloned().ok_or(Fail("nohandle"))?; j.t("what", "avail").t("kind", "avail").b("v", p.lock().unwrap().is_available()); Ok(()) }
            "pcur" => { let p = self.p.lock().unwrap().get(a[1]).cloned().ok_or(Fail("nohandle"))?; let c = p.lock().unwrap().get_current_index() as u64; j.t("what", "cur").t("kind", "cur").h("cur", &c.to_le_bytes()); Ok(()) }
            "pfree" => { self.p.lock().unwrap().remove(a[1]); j.t("what", "free").t("kind", "free").i("inside", 0); Ok(()) }
            "rng" => {
                let s = utf(unhex(a[2]))?; *rand::FAIL.lock().unwrap_or_else(|p| p.into_inner()) = a.len() > 3 && a[3] == "fail";
                rand::TAKEN.lock().unwrap_or_else(|p| p.into_inner()).clear();
                let r = catch_unwind(AssertUnwindSafe(|| misc::get_random_seed(num(a[1]) as u32, &s)));
                let t = rand::TAKEN.lock().unwrap_or_else(|p| p.into_inner()).clone();
                *rand::FAIL.lock().unwrap_or_else(|p| p.into_inner()) = false;
                j.b("done", r.is_ok()).h("taken", &t);
                if let Ok(b) = r { j.h("b", &b); }
                Ok(())
            }
            // Dilithium
            "dnew" => { let d = dil::Dilithium::default(); self.put_d(a[1], d, j); Ok(()) }
            "dfrom" => {
                let (p, s) = (self.val(a[2])?, self.val(a[3])?); arg(j, &[("pk", &p), ("sk", &s)]);
                let r = dil::Dilithium::new(&p, &s);
                j.b("done", r.is_ok()).b("inok", true);
                if let Ok(d) = r { self.put_d(a[1], d, j); }
                Ok(())
            }
            "dget" => { let d = self.dil(a[1])?; dilfacts(&d.lock().unwrap(), j); Ok(()) }
            "dsign" => {
                use pqcrypto_traits::sign::SignedMessage as _;
                let d = self.dil(a[1])?; let m = self.val(a[2])?; let c = m.clone(); arg(j, &[("msg", &m)]);
                let s = d.lock().unwrap().sign(&m);
                if a.len() > 3 { self.reg(a[3], s.as_bytes()); }
                j.h("sm", s.as_bytes()).b("inok", m == c); Ok(())
            }
            "dopen" => {
                use pqcrypto_traits::sign::{PublicKey as _, SignedMessage as _};
                let (sb, pb) = (self.val(a[1])?, self.val(a[2])?); arg(j, &[("sm", &sb), ("pk", &pb)]);
                let sm = e(pqcrypto_dilithium::dilithium5::SignedMessage::from_bytes(&sb));
                let pk = e(pqcrypto_dilithium::dilithium5::PublicKey::from_bytes(&pb));
                match (sm, pk) { (Ok(s), Ok(p)) => match dil::Dilithium::sign_open(&s, &p) { Ok(m) => { j.b("v", true).h("m", &m); } Err(_) => { j.b("v", false).h("m", &[]); } }, _ => { j.b("v", false).h("m", &[]); } }
                j.b("inok", true); Ok(())
            }
            "dmsg" | "dsig" => {
                let s = self.val(a[1])?; let s0 = s.clone(); arg(j, &[("sm", &s)]);
                let r = if a[0] == "dmsg" { dil::Dilithium::extract_message(&s) } else { dil::Dilithium::extract_signature(&s) };
                j.b("done", r.is_ok()).h("b", &r.unwrap_or_default()).b("inok", s == s0); Ok(())
            }
            // Kyber
            "knew" => { let k = kyb::Kyber::default(); self.put_k(a[1], k, j); Ok(()) }
            "kfrom" => {
                let (p, s) = (self.val(a[2])?, self.val(a[3])?); arg(j, &[("pk", &p), ("sk", &s)]);
                let r = kyb::Kyber::new(&p, &s);
                j.b("done", r.is_ok()).b("inok", true);
                if let Ok(k) = r { self.put_k(a[1], k, j); }
                Ok(())
            }
            "kget" => { let k = self.kyb(a[1])?; kfacts(&k.lock().unwrap(), j); Ok(()) }
            "kcopy" => { let k = self.kyb(a[2])?; let c = k.lock().unwrap().clone(); self.put_k(a[1], c, j); Ok(()) }
            "kenc" | "kdec" => {
                use pqcrypto_traits::kem::{Ciphertext as _, PublicKey as _};
                let k = self.kyb(a[1])?; let mut g = k.lock().unwrap(); let x = self.val(a[2])?;
                arg(j, &[(if a[0] == "kenc" { "pk" } else { "ct" }, &x)]);
                let v = if a[0] == "kenc" { match kyb::PublicKey::from_bytes(&x) { Ok(p) => { g.kem_encode(p); true } Err(_) => false } }
                        else { match kyb::Ciphertext::from_bytes(&x) { Ok(p) => { g.kem_decode(p); true } Err(_) => false } };
                j.b("v", v).b("inok", true); kfacts(&g, j);
                self.reg(&format!("ct.{}", a[1]), g.get_cipher_text().as_bytes());
                if a.len() > 3 { self.reg(a[3], g.get_cipher_text().as_bytes()); }
                Ok(())
            }
            _ => Err(Fail("noop")),
        }
    }
    fn reg(&self, n: &str, b: &[u8]) { self.r.lock().unwrap().insert(n.into(), b.to_vec()); }
    fn put_d(&self, h: &str, d: dil::Dilithium, j: &mut J) {
        use pqcrypto_traits::sign::{PublicKey as _, SecretKey as _};
        dilfacts(&d, j); self.reg(&format!("pk.{}", h), d.get_pk().as_bytes()); self.reg(&format!("sk.{}", h), d.get_sk().as_bytes());
        self.d.lock().unwrap().insert(h.into(), Arc::new(Mutex::new(d)));
    }
    fn put_k(&self, h: &str, k: kyb::Kyber, j: &mut J) {
        use pqcrypto_traits::kem::{Ciphertext as _, PublicKey as _, SecretKey as _};
        kfacts(&k, j); self.reg(&format!("pk.{}", h), k.get_pk().as_bytes()); self.reg(&format!("sk.{}", h), k.get_sk().as_bytes()); self.reg(&format!("ct.{}", h), k.get_cipher_text().as_bytes());
        self.k.lock().unwrap().insert(h.into(), Arc::new(Mutex::new(k)));
    }
    // arguments that refer to earlier results, see common.h
    fn val(&self, tok: &str) -> Result<B, Fail> {
        if !tok.starts_with('$') { return Ok(unhex(tok)); }
        let mut all = vec![];
        for p in tok.split(',') {
            let mut it = p.split(':');
            let f = it.next().unwrap();
            let mut b = if let Some(n) = f.strip_prefix('$') { self.r.lock().unwrap().get(n).cloned().ok_or(Fail("noop"))? } else { unhex(f) };
            for o in it {
                let r = &o[1..];
                match &o[..1] {
                    "<" => b.truncate(num(r) as usize),
                    ">" => { let n = (num(r) as usize).min(b.len()); b.drain(..n); }
                    "^" => { let mut k: i64 = r.parse().unwrap(); if k < 0 { k += b.len() as i64; } if !b.is_empty() { let n = b.len(); b[k as usize % n] ^= 1u8 << (k % 8); } }
                    _ => b.extend_from_slice(&unhex(r)),
                }
            }
            all.extend_from_slice(&b);
        }
        Ok(all)
    }
    fn dil(&self, h: &str) -> Result<Arc<Mutex<dil::Dilithium>>, Fail> { self.d.lock().unwrap().get(h).cloned().ok_or(Fail("nohandle")) }
    fn kyb(&self, h: &str) -> Result<Arc<Mutex<kyb::Kyber>>, Fail> { self.k.lock().unwrap().get(h).cloned().ok_or(Fail("nohandle")) }
    fn run(&self, line: &str) -> String {
        let a: Vec<&str> = line.split_whitespace().collect();
        if a.is_empty() { return String::new(); }
        let mut j = J("{".into());
        match catch_unwind(AssertUnwindSafe(|| { let mut k = J("{".into()); let r = self.op(&a, &mut k); (r, k) })) {
            Ok((Ok(()), mut k)) => { k.t("r", "ok"); k.end() }
            Ok((Err(Fail("noop")), _)) => { j.t("r", "noop"); j.end() }
            Ok((Err(Fail(k)), _)) => { j.t("r", "err").t("kind", if k == "err" { "arg" } else { k }); j.end() }
            Err(_) => { j.t("r", "panic"); j.end() }
        }
    }
}
fn dilfacts(d: &dil::Dilithium, j: &mut J) { use pqcrypto_traits::sign::{PublicKey as _, SecretKey as _}; j.h("pk", d.get_pk().as_bytes()).h("sk", d.get_sk().as_bytes()).i("pksz", dil::Dilithium::get_public_key_size() as u64).i("sksz", dil::Dilithium::get_secret_key_size() as u64); }
fn kfacts(k: &kyb::Kyber, j: &mut J) { use pqcrypto_traits::kem::{Ciphertext as _, PublicKey as _, SecretKey as _, SharedSecret as _}; j.h("pk", k.get_pk().as_bytes()).h("sk", k.get_sk().as_bytes()).h("key", k.get_shared_secret().as_bytes()).h("ct", k.get_cipher_text().as_bytes()); }

// out of range (basic signer put past its last key) nothing is promised about the remaining count
fn rem_of(idx: u32, n: u32, f: impl FnOnce() -> u32) -> u64 { if idx <= n { f() as u64 } else { 0 } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(16 << 20).spawn(|| {
        let w = World::default();
        let mut out: Box<dyn Write> = match std::env::var("QRL_OUT_FD") { Ok(fd) => { use std::os::fd::FromRawFd; Box::new(unsafe { std::fs::File::from_raw_fd(fd.parse().unwrap()) }) } Err(_) => Box::new(std::io::stdout()) };
        for l in std::io::stdin().lock().lines() {
            let l = match l { Ok(l) => l, Err(_) => break };
            let r = w.run(&l);
            if r.is_empty() { continue; }
            out.write_all(r.as_bytes()).unwrap(); out.write_all(b"\n").unwrap(); out.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
