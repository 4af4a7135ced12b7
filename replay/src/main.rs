//! Runs one call of a contract's wasm in the native Soroban host, from a given storage state, with every other contract replaced
//! by a stub that answers from a script and keeps a token ledger; prints what the call did. Input and output are JSON.
use serde_json::{json, Value};
use soroban_sdk::testutils::{AuthorizedFunction, ContractFunctionSet, Ledger};
use soroban_sdk::xdr::{self, ScAddress, ScVal};
use soroban_sdk::{Address, Env, Symbol, TryFromVal, Val, Vec as SVec};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Read;

#[derive(Default)]
struct World {
    bal: BTreeMap<(u64, u64), i128>,
    decimals: BTreeMap<u64, u32>,
    scripts: Vec<(u64, String, Value, bool)>,
    log: Vec<Value>,
}

thread_local! { static W: RefCell<World> = RefCell::new(World::default()); static UP: RefCell<String> = const { RefCell::new(String::new()) }; }

fn num<T: std::str::FromStr>(v: &Value) -> T
where
    T::Err: std::fmt::Debug,
{
    match v {
        Value::String(s) => s.parse().unwrap(),
        o => o.to_string().parse().unwrap(),
    }
}

fn hash(n: u64) -> xdr::Hash {
    let mut b = [0u8; 32];
    b[0] = 1;
    b[24..].copy_from_slice(&n.to_be_bytes());
    xdr::Hash(b)
}

fn to_sc(v: &Value) -> ScVal {
    if v.is_string() {
        return ScVal::Void;
    }
    let (k, x) = v.as_object().unwrap().iter().next().unwrap();
    match k.as_str() {
        "u32" => ScVal::U32(num(x)),
        "i32" => ScVal::I32(num(x)),
        "u64" => ScVal::U64(num(x)),
        "i64" => ScVal::I64(num(x)),
        "u128" => {
            let n: u128 = num(x);
            ScVal::U128(xdr::UInt128Parts { hi: (n >> 64) as u64, lo: n as u64 })
        }
        "i128" => {
            let n: i128 = num(x);
            ScVal::I128(xdr::Int128Parts { hi: (n >> 64) as i64, lo: n as u64 })
        }
        "bool" => ScVal::Bool(x.as_bool().unwrap()),
        "sym" => ScVal::Symbol(xdr::ScSymbol(x.as_str().unwrap().try_into().unwrap())),
        "str" => ScVal::String(xdr::ScString(x.as_str().unwrap().try_into().unwrap())),
        "bytes" => {
            let u = UP.with(|u| u.borrow().clone());
            let h = if x == "upload" { u.as_str() } else { x.as_str().unwrap() };
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            ScVal::Bytes(xdr::ScBytes(b.try_into().unwrap()))
        }
        "addr" => ScVal::Address(ScAddress::Contract(hash(num(x)))),
        "vec" => {
            let l: Vec<ScVal> = x.as_array().unwrap().iter().map(to_sc).collect();
            ScVal::Vec(Some(xdr::ScVec(l.try_into().unwrap())))
        }
        "map" => {
            let l: Vec<xdr::ScMapEntry> = x
                .as_array()
                .unwrap()
                .iter()
                .map(|e| xdr::ScMapEntry { key: to_sc(&e[0]), val: to_sc(&e[1]) })
                .collect();
            ScVal::Map(Some(xdr::ScMap::sorted_from(l).unwrap()))
        }
        o => panic!("unknown value kind {o}"),
    }
}

fn from_sc(v: &ScVal) -> Value {
    match v {
        ScVal::Void => json!("void"),
        ScVal::U32(n) => json!({"u32": n.to_string()}),
        ScVal::I32(n) => json!({"i32": n.to_string()}),
        ScVal::U64(n) => json!({"u64": n.to_string()}),
        ScVal::I64(n) => json!({"i64": n.to_string()}),
        ScVal::U128(p) => json!({"u128": (((p.hi as u128) << 64) | p.lo as u128).to_string()}),
        ScVal::I128(p) => json!({"i128": (((p.hi as i128) << 64) | p.lo as i128).to_string()}),
        ScVal::Bool(b) => json!({"bool": b}),
        ScVal::Symbol(s) => json!({"sym": s.0.to_string()}),
        ScVal::String(s) => json!({"str": s.0.to_string()}),
        ScVal::Bytes(b) => json!({"bytes": b.0.iter().map(|x| format!("{x:02x}")).collect::<String>()}),
        ScVal::Address(ScAddress::Contract(h)) => json!({"addr": u64::from_be_bytes(h.0[24..].try_into().unwrap())}),
        ScVal::Vec(Some(l)) => json!({"vec": l.0.iter().map(from_sc).collect::<Vec<_>>()}),
        ScVal::Map(Some(m)) => json!({"map": m.0.iter().map(|e| json!([from_sc(&e.key), from_sc(&e.val)])).collect::<Vec<_>>()}),
        o => json!({"other": format!("{o:?}")}),
    }
}

fn val(env: &Env, v: &Value) -> Val {
    Val::try_from_val(env, &to_sc(v)).unwrap()
}

fn unval(env: &Env, v: &Val) -> Value {
    from_sc(&ScVal::try_from_val(env, v).unwrap())
}

fn index(env: &Env, a: &Address) -> u64 {
    match ScVal::try_from_val(env, &a.to_val()).unwrap() {
        ScVal::Address(ScAddress::Contract(h)) => u64::from_be_bytes(h.0[24..].try_into().unwrap()),
        _ => u64::MAX,
    }
}

struct Stub;

impl ContractFunctionSet for Stub {
    fn call(&self, func: &str, env: Env, args: &[Val]) -> Option<Val> {
        if func == "__constructor" {
            return None;
        }
        let me = index(&env, &env.current_contract_address());
        let a: Vec<Value> = args.iter().map(|x| unval(&env, x)).collect();
        let who = |i: usize| a[i]["addr"].as_u64().unwrap();
        let amt = |i: usize| -> i128 { num(&a[i]["i128"]) };
        let mv = |kind: &str, from: Option<u64>, to: Option<u64>, n: i128| {
            W.with(|w| {
                let mut w = w.borrow_mut();
                assert!(n >= 0, "negative amount");
                if let Some(f) = from {
                    let b = *w.bal.get(&(me, f)).unwrap_or(&0);
                    assert!(b >= n, "balance too small");
                    w.bal.insert((me, f), b - n);
                }
                if let Some(t) = to {
                    let b = *w.bal.get(&(me, t)).unwrap_or(&0);
                    w.bal.insert((me, t), b.saturating_add(n));
                }
                w.log.push(json!({"op": kind, "token": me, "from": from, "to": to, "amount": n.to_string()}));
            });
            Some(Val::VOID.to_val())
        };
        match (func, a.len()) {
            ("transfer", 3) => return mv("transfer", Some(who(0)), Some(who(1)), amt(2)),
            ("transfer_from", 4) => return mv("transfer", Some(who(1)), Some(who(2)), amt(3)),
            ("mint", 2) => return mv("mint", None, Some(who(0)), amt(1)),
            ("burn", 2) => return mv("burn", Some(who(0)), None, amt(1)),
            ("burn_from", 3) => return mv("burn", Some(who(1)), None, amt(2)),
            ("balance", 1) => {
                let b = W.with(|w| *w.borrow().bal.get(&(me, who(0))).unwrap_or(&0));
                return Some(val(&env, &json!({"i128": b.to_string()})));
            }
            ("decimals", 0) => {
                let d = W.with(|w| *w.borrow().decimals.get(&me).unwrap_or(&0));
                return Some(val(&env, &json!({ "u32": d })));
            }
            _ => {}
        }
        let r = W.with(|w| {
            let mut w = w.borrow_mut();
            w.log.push(json!({"op": "call", "addr": me, "method": func, "args": a}));
            for s in w.scripts.iter_mut() {
                if !s.3 && s.0 == me && s.1 == func {
                    s.3 = true;
                    return s.2.clone();
                }
            }
            panic!("call not foreseen: {func}")
        });
        Some(val(&env, &r))
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let j: Value = serde_json::from_str(&s).unwrap();
    let r = std::panic::catch_unwind(|| run(&j));
    let out = match r {
        Ok(v) => v,
        Err(e) => json!({"ok": false, "error": format!("{:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())))}),
    };
    println!("{out}");
}

fn run(j: &Value) -> Value {
    let env = Env::default();
    env.mock_all_auths_allowing_non_root_auth();
    env.budget().reset_unlimited();
    env.ledger().with_mut(|l| {
        l.timestamp = num(&j["time"]);
        l.sequence_number = num(&j["sequence"]);
        l.min_persistent_entry_ttl = 1_000_000;
        l.min_temp_entry_ttl = 1_000_000;
        l.max_entry_ttl = 6_312_000;
    });
    let wasm = std::fs::read(j["wasm"].as_str().unwrap()).unwrap();
    let adr = |n: u64| Address::try_from_val(&env, &val(&env, &json!({ "addr": n }))).unwrap();
    let me = adr(num(&j["self"]));
    for n in j["stubs"].as_array().unwrap() {
        env.register_at(&adr(num(n)), Stub, ());
    }
    let mut ctor: SVec<Val> = SVec::new(&env);
    for a in j["ctor"].as_array().unwrap() {
        ctor.push_back(val(&env, a));
    }
    env.register_at(&me, wasm.as_slice(), ctor);
    let mut up = String::new();
    if j["upload"].as_bool().unwrap() {
        let h = env.deployer().upload_contract_wasm(wasm.as_slice());
        up = unval(&env, &h.to_val())["bytes"].as_str().unwrap().to_string();
        UP.with(|u| *u.borrow_mut() = up.clone());
    }
    W.with(|w| {
        let mut w = w.borrow_mut();
        for t in j["balances"].as_array().unwrap() {
            w.bal.insert((num(&t[0]), num(&t[1])), num(&t[2]));
        }
        for t in j["decimals"].as_array().unwrap() {
            w.decimals.insert(num(&t[0]), num(&t[1]));
        }
        for t in j["scripts"].as_array().unwrap() {
            w.scripts.push((num(&t["addr"]), t["method"].as_str().unwrap().to_string(), t["ret"].clone(), false));
        }
    });
    env.as_contract(&me, || {
        for e in j["storage"].as_array().unwrap() {
            let (k, v) = (val(&env, &e["key"]), val(&env, &e["val"]));
            match e["dur"].as_str().unwrap() {
                "persistent" => env.storage().persistent().set(&k, &v),
                "instance" => env.storage().instance().set(&k, &v),
                _ => env.storage().temporary().set(&k, &v),
            }
        }
    });
    let mut args: SVec<Val> = SVec::new(&env);
    for a in j["args"].as_array().unwrap() {
        args.push_back(val(&env, a));
    }
    let r = env.try_invoke_contract::<Val, soroban_sdk::Error>(&me, &Symbol::new(&env, j["fn"].as_str().unwrap()), args);
    let (ok, ret) = match r {
        Ok(Ok(v)) => (true, unval(&env, &v)),
        o => (false, json!(format!("{o:?}"))),
    };
    let mut auths = vec![];
    for (a, i) in env.auths() {
        if let AuthorizedFunction::Contract((c, _, _)) = i.function {
            if c == me {
                auths.push(index(&env, &a));
            }
        }
    }
    let mut after = vec![];
    env.as_contract(&me, || {
        for e in j["watch"].as_array().unwrap() {
            let k = val(&env, &e["key"]);
            let v: Option<Val> = match e["dur"].as_str().unwrap() {
                "persistent" => env.storage().persistent().get(&k),
                "instance" => env.storage().instance().get(&k),
                _ => env.storage().temporary().get(&k),
            };
            after.push(match v {
                Some(v) => unval(&env, &v),
                None => json!(null),
            });
        }
    });
    let log = W.with(|w| w.borrow().log.clone());
    json!({"ok": ok, "ret": ret, "auths": auths, "storage": after, "log": log, "upload": up})
}
