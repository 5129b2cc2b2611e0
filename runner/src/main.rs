//! Runs one contract call on the real Soroban host, over the wasm files built from the repository.
//! One JSON job per input line, one JSON result per output line. Values are XDR ScVal in hex.
use serde_json::{json, Value};
use soroban_sdk::testutils::{AuthorizedFunction, AuthorizedInvocation, ContractFunctionSet};
use soroban_sdk::xdr::{self, Limits, ReadXdr, WriteXdr};
use soroban_sdk::{Address, Env, IntoVal, Symbol, TryFromVal, TryIntoVal, Val, Vec as SVec};
use std::cell::RefCell;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn scval(v: &Value) -> xdr::ScVal {
    xdr::ScVal::from_xdr(unhex(v.as_str().unwrap()), Limits::none()).unwrap()
}

fn id32(v: &Value) -> [u8; 32] {
    unhex(v.as_str().unwrap()).try_into().unwrap()
}

fn scaddr(id: [u8; 32]) -> xdr::ScAddress {
    xdr::ScAddress::Contract(xdr::Hash(id))
}

fn val(env: &Env, v: &xdr::ScVal) -> Val {
    Val::try_from_val(env, v).unwrap()
}

struct Mock {
    script: RefCell<std::collections::VecDeque<Value>>,
}

impl ContractFunctionSet for Mock {
    fn call(&self, func: &str, env: Env, _args: &[Val]) -> Option<Val> {
        if func == "__constructor" {
            // called once when the stand-in is registered
            return None;
        }
        let s = self.script.borrow_mut().pop_front()?;
        if s["fn"].as_str()? != func {
            return None;
        }
        if s["fail"].as_bool().unwrap_or(false) {
            return None;
        }
        for e in s["effects"].as_array().unwrap_or(&vec![]) {
            let to = Address::try_from_val(&env, &scaddr(id32(&e[0]))).unwrap();
            let mut a: SVec<Val> = SVec::new(&env);
            for x in e[2].as_array().unwrap() {
                a.push_back(val(&env, &scval(x)));
            }
            let _: Val = env.invoke_contract(&to, &Symbol::new(&env, e[1].as_str().unwrap()), a);
        }
        Some(val(&env, &scval(&s["ret"])))
    }
}

/// A SEP-41 token with balances in persistent storage under the holder's address.
struct Token {
    admin: Option<[u8; 32]>,
    decimals: u32,
}

impl ContractFunctionSet for Token {
    fn call(&self, func: &str, env: Env, args: &[Val]) -> Option<Val> {
        let addr = |i: usize| Address::try_from_val(&env, args.get(i).unwrap()).unwrap();
        let amt = |i: usize| i128::try_from_val(&env, args.get(i).unwrap()).unwrap();
        let get = |a: &Address| -> i128 { env.storage().persistent().get(a).unwrap_or(0) };
        let put = |a: &Address, v: i128| env.storage().persistent().set(a, &v);
        match func {
            "balance" => Some(get(&addr(0)).into_val(&env)),
            "decimals" => Some(self.decimals.into_val(&env)),
            "name" | "symbol" => Some(soroban_sdk::String::from_str(&env, "TOK").into_val(&env)),
            "transfer" => {
                let (f, t, n) = (addr(0), addr(1), amt(2));
                f.require_auth();
                if n < 0 || get(&f) < n {
                    panic!("token")
                }
                put(&f, get(&f) - n);
                put(&t, get(&t).checked_add(n).unwrap());
                Some(().into_val(&env))
            }
            "mint" => {
                let admin = Address::try_from_val(&env, &scaddr(self.admin.unwrap())).unwrap();
                admin.require_auth();
                let (t, n) = (addr(0), amt(1));
                if n < 0 {
                    panic!("token")
                }
                put(&t, get(&t).checked_add(n).unwrap());
                Some(().into_val(&env))
            }
            "burn" => {
                let (f, n) = (addr(0), amt(1));
                f.require_auth();
                if n < 0 || get(&f) < n {
                    panic!("token")
                }
                put(&f, get(&f) - n);
                Some(().into_val(&env))
            }
            _ => None,
        }
    }
}

fn flat(env: &Env, who: &Address, inv: &AuthorizedInvocation, out: &mut Vec<Value>) {
    if let AuthorizedFunction::Contract((c, f, _)) = &inv.function {
        let c: xdr::ScAddress = c.into();
        let w: xdr::ScAddress = who.into();
        let (cid, wid) = match (c, w) {
            (xdr::ScAddress::Contract(a), xdr::ScAddress::Contract(b)) => (hex(&a.0), hex(&b.0)),
            _ => (String::new(), String::new()),
        };
        let f = f.to_string();
        out.push(json!([cid, wid, f]));
    }
    for s in &inv.sub_invocations {
        flat(env, who, s, out);
    }
}

fn run(job: &Value) -> Value {
    let seq = job["seq"].as_u64().unwrap() as u32;
    let live = seq + 3_000_000;
    let mut entries: Vec<(Box<xdr::LedgerKey>, (Box<xdr::LedgerEntry>, Option<u32>))> = vec![];
    let mut put = |k: xdr::LedgerKey, d: xdr::LedgerEntryData| {
        let e = xdr::LedgerEntry { last_modified_ledger_seq: 0, data: d, ext: xdr::LedgerEntryExt::V0 };
        entries.push((Box::new(k), (Box::new(e), Some(live))));
    };
    let mut hashes = vec![];
    for c in job["codes"].as_array().unwrap() {
        let code = std::fs::read(c["path"].as_str().unwrap()).unwrap();
        let h: [u8; 32] = id32(&c["hash"]);
        hashes.push(h);
        put(
            xdr::LedgerKey::ContractCode(xdr::LedgerKeyContractCode { hash: xdr::Hash(h) }),
            xdr::LedgerEntryData::ContractCode(xdr::ContractCodeEntry {
                ext: xdr::ContractCodeEntryExt::V0,
                hash: xdr::Hash(h),
                code: code.try_into().unwrap(),
            }),
        );
    }
    let mut mocks = vec![];
    for c in job["contracts"].as_array().unwrap() {
        let id = id32(&c["id"]);
        let mut inst: Vec<xdr::ScMapEntry> = vec![];
        for e in c["storage"].as_array().unwrap() {
            let (k, v) = (scval(&e[1]), scval(&e[2]));
            let dur = match e[0].as_u64().unwrap() {
                0 => xdr::ContractDataDurability::Temporary,
                1 => xdr::ContractDataDurability::Persistent,
                _ => {
                    inst.push(xdr::ScMapEntry { key: k, val: v });
                    continue;
                }
            };
            put(
                xdr::LedgerKey::ContractData(xdr::LedgerKeyContractData {
                    contract: scaddr(id),
                    key: k.clone(),
                    durability: dur,
                }),
                xdr::LedgerEntryData::ContractData(xdr::ContractDataEntry {
                    ext: xdr::ExtensionPoint::V0,
                    contract: scaddr(id),
                    key: k,
                    durability: dur,
                    val: v,
                }),
            );
        }
        let w = c["wasm"].as_i64().unwrap();
        if w < 0 {
            mocks.push((id, c.clone()));
            continue;
        }
        let storage = if inst.is_empty() { None } else { Some(xdr::ScMap::sorted_from(inst).unwrap()) };
        let key = xdr::ScVal::LedgerKeyContractInstance;
        put(
            xdr::LedgerKey::ContractData(xdr::LedgerKeyContractData {
                contract: scaddr(id),
                key: key.clone(),
                durability: xdr::ContractDataDurability::Persistent,
            }),
            xdr::LedgerEntryData::ContractData(xdr::ContractDataEntry {
                ext: xdr::ExtensionPoint::V0,
                contract: scaddr(id),
                key,
                durability: xdr::ContractDataDurability::Persistent,
                val: xdr::ScVal::ContractInstance(xdr::ScContractInstance {
                    executable: xdr::ContractExecutable::Wasm(xdr::Hash(hashes[w as usize])),
                    storage,
                }),
            }),
        );
    }
    let mut snap = Env::default().to_ledger_snapshot();
    snap.sequence_number = seq;
    snap.timestamp = job["now"].as_u64().unwrap();
    snap.max_entry_ttl = 6_312_000;
    snap.min_persistent_entry_ttl = 4096;
    snap.min_temp_entry_ttl = 16;
    snap.ledger_entries = entries;
    let env = Env::from_ledger_snapshot(snap);
    env.budget().reset_unlimited();
    for (id, c) in mocks {
        let a = Address::try_from_val(&env, &scaddr(id)).unwrap();
        if c["wasm"].as_i64() == Some(-2) {
            let admin = if c["admin"].is_null() { None } else { Some(id32(&c["admin"])) };
            env.register_at(&a, Token { admin, decimals: c["decimals"].as_u64().unwrap() as u32 }, ());
        } else {
            let script = c["script"].as_array().unwrap().clone();
            env.register_at(&a, Mock { script: RefCell::new(script.into_iter().collect()) }, ());
        }
    }
    env.mock_all_auths_allowing_non_root_auth();
    let call = &job["call"];
    let target = Address::try_from_val(&env, &scaddr(id32(&call["id"]))).unwrap();
    let mut args: SVec<Val> = SVec::new(&env);
    for x in call["args"].as_array().unwrap() {
        args.push_back(val(&env, &scval(x)));
    }
    let f = Symbol::new(&env, call["fn"].as_str().unwrap());
    let r = env.try_invoke_contract::<Val, soroban_sdk::Error>(&target, &f, args);
    let (ok, ret, err) = match r {
        Ok(Ok(v)) => {
            let s: xdr::ScVal = v.try_into_val(&env).unwrap();
            (true, hex(&s.to_xdr(Limits::none()).unwrap()), String::new())
        }
        Ok(Err(_)) => (false, String::new(), "conversion".to_string()),
        Err(e) => (false, String::new(), format!("{:?}", e)),
    };
    if std::env::var("VERIF_DIAG").is_ok() {
        for e in env.host().get_diagnostic_events().unwrap().0.iter() {
            eprintln!("diag: {}", e);
        }
    }
    let mut auths = vec![];
    if ok {
        for (a, inv) in env.auths() {
            flat(&env, &a, &inv, &mut auths);
        }
    }
    let mut out = vec![];
    let mut insts = vec![];
    for (_, (e, _)) in env.to_ledger_snapshot().ledger_entries {
        if let xdr::LedgerEntryData::ContractData(d) = &e.data {
            let id = match &d.contract {
                xdr::ScAddress::Contract(h) => hex(&h.0),
                _ => continue,
            };
            match (&d.key, &d.val) {
                (xdr::ScVal::LedgerKeyContractInstance, xdr::ScVal::ContractInstance(i)) => {
                    if let xdr::ContractExecutable::Wasm(h) = &i.executable {
                        insts.push(json!([id, hex(&h.0)]));
                    }
                    if let Some(m) = &i.storage {
                        for e in m.0.iter() {
                            out.push(json!([id, 2, hex(&e.key.to_xdr(Limits::none()).unwrap()),
                                hex(&e.val.to_xdr(Limits::none()).unwrap())]));
                        }
                    }
                }
                (xdr::ScVal::LedgerKeyNonce(_), _) => {}
                _ => {
                    let dur = if d.durability == xdr::ContractDataDurability::Temporary { 0 } else { 1 };
                    out.push(json!([id, dur, hex(&d.key.to_xdr(Limits::none()).unwrap()),
                        hex(&d.val.to_xdr(Limits::none()).unwrap())]));
                }
            }
        }
    }
    let _: Val = ().into_val(&env);
    json!({"ok": ok, "ret": ret, "err": err, "auths": auths, "entries": out, "instances": insts})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let job: Value = serde_json::from_str(&line).unwrap();
        let r = std::panic::catch_unwind(|| run(&job))
            .unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                json!({"crash": m.unwrap_or_default()})
            });
        println!("{}", r);
        std::io::stdout().flush().unwrap();
    }
}
