mod world;
use near_vm_logic::types::PromiseResult;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::rc::Rc;
use world::*;

const EX: &str = "ex";
const FM: &str = "farm";
const TGAS: u64 = 1_000_000_000_000;

#[derive(Clone, Default)]
struct Token {
    bal: BTreeMap<String, u128>,
    blocked: BTreeSet<String>,
}

#[derive(Clone, Default)]
struct World {
    accs: BTreeMap<String, Account>,
    toks: BTreeMap<String, Token>,
    wnear: String,
    pend: Vec<Receipt>,
    next: u64,
    now: u64,
    watch: Vec<String>,
    obs: BTreeMap<String, Value>,
    /// while a contract runs the code of an earlier release nothing is recorded
    past: bool,
    /// there are records of an earlier release
    aged: bool,
    seen: BTreeMap<String, (u64, u64)>,
}

struct Sim {
    vm: Vm,
    w: World,
    snaps: BTreeMap<String, World>,
    /// value returned by the last call or view of the contract
    last: Value,
    /// values the script remembers, see `fill`
    kept: BTreeMap<String, Value>,
    codes: BTreeMap<String, Rc<Code>>,
    out: std::io::BufWriter<std::io::Stdout>,
    memo: BTreeMap<(String, String, String), Vec<(u64, BTreeMap<Vec<u8>, Option<Vec<u8>>>, Option<Value>)>>,
    light: bool,
    n: u64,
}

const PARTIAL: &[&str] = &["mft_has_registered", "get_pool_shares_batch", "get_account_basic_info", "get_deposits", "get_shadow_records", "get_tokens_paged", "list_lostfound_tokens"];
fn amt(v: &Value) -> Option<u128> {
    v.as_str().and_then(|s| s.parse().ok())
}
fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn sorted(v: Value) -> Value {
    let mut a: Vec<String> = v.as_array().cloned().unwrap_or_default().iter().map(|x| s(x)).collect();
    a.sort();
    json!(a)
}

impl Sim {
    /// Asks a view. An earlier answer stands as long as the time and every record it was drawn from are the same.
    /// The answer of a view. Answers are remembered with what was read from storage to get them. Those that observe one user or pool
    /// (`PARTIAL`) are asked again when that part changed, not with every new time or root record of the contract; questions of a script always are.
    fn view(&mut self, who: &str, method: &str, args: Value) -> Option<Value> {
        self.ask(who, method, args, !PARTIAL.contains(&method))
    }

    /// a listing asked page by page: what the pages show together, or what is wrong with them
    fn paged(&mut self, who: &str, method: &str, args: Value, size: u64) -> (Value, Option<Value>) {
        let (mut at, mut list, mut map, mut is_list) = (0, vec![], Map::new(), false);
        loop {
            let mut a = args.clone();
            a["from_index"] = json!(at);
            a["limit"] = json!(size);
            let v = match self.ask(who, method, a, true) {
                Some(v) => v,
                None => return (args, None),
            };
            let n = match v {
                Value::Array(l) => {
                    is_list = true;
                    let n = l.len();
                    list.extend(l);
                    n
                }
                Value::Object(m) => {
                    let n = m.len();
                    for (k, x) in m {
                        if map.insert(k.clone(), x).is_some() {
                            return (args, Some(json!(format!("{} on two pages", k))));
                        }
                    }
                    n
                }
                _ => return (args, Some(json!("no page"))),
            };
            if n as u64 > size || at > 1000 {
                return (args, Some(json!("a page too long")));
            }
            at += size;
            if n == 0 {
                break;
            }
        }
        let mut a = args;
        a["from_index"] = json!(0);
        a["limit"] = json!(1000);
        (a, Some(if is_list && map.is_empty() { json!(list) } else { json!(map) }))
    }

    fn ask(&mut self, who: &str, method: &str, args: Value, strict: bool) -> Option<Value> {
        let now = self.w.now;
        let args = args.to_string();
        let acc = self.w.accs.get_mut(who)?;
        let key = (who.to_string(), method.to_string(), args.clone());
        for (t, reads, v) in self.memo.get(&key).into_iter().flatten() {
            if (*t == now || !strict) && reads.iter().all(|(k, x)| (!strict && k == b"STATE") || acc.storage.get(k) == x.as_ref()) {
                return v.clone();
            }
        }
        let o = self.vm.run(who, acc, "viewer", "viewer", method, args.as_bytes(), 0, 0, now, &[], true);
        if !o.ok && std::env::var("VDBG").is_ok() {
            eprintln!("{} {:?}", method, o.err);
        }
        let v = if !o.ok {
            None
        } else {
            match o.ret {
                Ret::Value(v) => Some(parse(&v)),
                _ => Some(json!("")),
            }
        };
        let l = self.memo.entry(key).or_default();
        if l.len() >= 3 {
            l.remove(0);
        }
        l.push((now, o.reads, v.clone()));
        v
    }

    fn set(&mut self, delta: &mut Map<String, Value>, k: String, v: Value) {
        if self.w.obs.get(&k) != Some(&v) {
            delta.insert(k.clone(), norm(v.clone()));
            self.w.obs.insert(k, v);
        }
    }

    fn observe(&mut self, delta: &mut Map<String, Value>) {
        if self.w.past {
            return;
        }
        if self.w.accs.contains_key(EX) {
            self.observe_ex(delta);
        }
        if self.w.accs.contains_key(FM) {
            self.observe_farm(delta);
        }
        let toks: Vec<(String, Value)> = self
            .w
            .toks
            .iter()
            .map(|(k, t)| {
                let m: Map<String, Value> =
                    t.bal.iter().filter(|(_, v)| **v > 0).map(|(a, v)| (a.clone(), json!(v.to_string()))).collect();
                (format!("t/{}", k), Value::Object(m))
            })
            .collect();
        for (k, v) in toks {
            self.set(delta, k, v);
        }
    }

    fn fresh(&mut self, who: &str) -> bool {
        let a = &self.w.accs[who];
        let key = (a.version, self.w.now);
        let old = self.w.seen.insert(who.to_string(), key);
        old != Some(key)
    }

    fn observe_ex(&mut self, d: &mut Map<String, Value>) {
        let a = &self.w.accs[EX];
        let near = json!({"bal": a.balance.to_string(), "usage": a.usage.to_string()});
        self.set(d, "near/ex".into(), near);
        if !self.fresh(EX) {
            return;
        }
        let m = match self.view(EX, "metadata", json!({})) {
            Some(m) => m,
            None => return,
        };
        let n = m["pool_count"].as_u64().unwrap_or(0);
        let cfg = json!({
            "owner": m["owner"], "guardians": sorted(m["guardians"].clone()), "state": m["state"],
            "adminfee": m["admin_fee_bps"], "boost": m["boost_farm_id"], "burrow": m["burrowland_id"],
            "interval": m["cumulative_info_record_interval_sec"],
            "wnear": if m["wnear_id"].is_string() { m["wnear_id"].clone() } else { json!("none") },
            "postfix": sorted(m["auto_whitelisted_postfix"].clone()),
            "frozen": sorted(self.view(EX, "get_frozenlist_tokens", json!({})).unwrap_or_default()),
            "wl": sorted(self.view(EX, "get_whitelisted_tokens", json!({})).unwrap_or_default()),
            "ref": self.view(EX, "list_referrals", json!({})).unwrap_or_default(),
            "cetw": sorted(self.view(EX, "get_client_echo_token_id_whitelist", json!({})).unwrap_or_default()),
            "cesw": sorted(self.view(EX, "get_client_echo_sender_id_whitelist", json!({})).unwrap_or_default()),
            "ssw": sorted(self.view(EX, "get_secure_sender_whitelist", json!({})).unwrap_or_default()),
            "npools": n,
        });
        self.set(d, "cfg".into(), cfg);
        let ids: Vec<u64> = (0..n).collect();
        let infos = self.view(EX, "get_pool_detail_infos", json!({"from_index": 0, "limit": n})).unwrap_or_default();
        let vols = self.view(EX, "list_pool_volumes", json!({"from_index": 0, "limit": n})).unwrap_or_default();
        let twap = self.view(EX, "list_pool_twap_info_view", json!({})).unwrap_or_default();
        let lim = self.view(EX, "get_pool_limit_paged", json!({})).unwrap_or_default();
        let watch = self.w.watch.clone();
        let mut shares: BTreeMap<String, Value> = BTreeMap::new();
        for u in &watch {
            shares.insert(
                u.clone(),
                self.view(EX, "get_pool_shares_batch", json!({"pool_ids": ids, "account_id": u})).unwrap_or_default(),
            );
        }
        for i in 0..n as usize {
            let mut info = infos[i].clone();
            if !info.is_object() {
                info = match self.view(EX, "get_pool_detail_infos", json!({"from_index": i, "limit": 1})) {
                    Some(v) => v[0].clone(),
                    None => json!({"panic": {}}),
                };
            }
            let o = info.as_object().cloned().unwrap_or_default();
            let (kind, body) = o.into_iter().next().unwrap_or((String::new(), json!({})));
            let mut p = body.as_object().cloned().unwrap_or_default();
            p.insert("kind".into(), json!(kind.replace("PoolInfo", "")));
            for k in &["rates", "degens"] {
                if let Some(v) = p.remove(*k) {
                    p.insert("mul".into(), v);
                }
            }
            p.insert("vol".into(), vols[i].clone());
            p.insert(
                "sh".into(),
                Value::Object(
                    shares.iter().map(|(u, v)| (u.clone(), v[i].clone())).filter(|(_, v)| v != "0").collect(),
                ),
            );
            let key = i.to_string();
            p.insert("twap".into(), twap.get(&key).cloned().unwrap_or(json!({"last_update_sec": -1})));
            p.insert("limit".into(), lim.get(&key).map(|l| l["DegenPoolLimit"]["Current"]["tvl_limit"].clone()).unwrap_or(json!("none")));
            p.insert(
                "tvl".into(),
                if kind == "DegenPoolInfo" { self.view(EX, "get_degen_pool_tvl", json!({"pool_id": i})).unwrap_or(json!("panic")) } else { json!("none") },
            );
            p.insert(
                "regs".into(),
                if self.light {
                    json!([])
                } else {
                    let mut r = vec![];
                    for u in &watch {
                        let zero = shares[u][i] == "0";
                        if !zero
                            || self.view(EX, "mft_has_registered", json!({"token_id": format!(":{}", i), "account_id": u}))
                                == Some(json!(true))
                        {
                            r.push(u.clone());
                        }
                    }
                    json!(r)
                },
            );
            self.set(d, format!("p/{}", i), Value::Object(p));
        }
        for u in &watch {
            let v = match self.view(EX, "get_account_basic_info", json!({ "account_id": u })) {
                Some(b) if b.is_object() => {
                    let tok = self.view(EX, "get_deposits", json!({ "account_id": u })).unwrap_or_default();
                    let sh = self.view(EX, "get_shadow_records", json!({ "account_id": u })).unwrap_or_default();
                    let st = self.view(EX, "get_user_storage_state", json!({ "account_id": u })).unwrap_or_default();
                    let sh: Map<String, Value> = sh
                        .as_object()
                        .cloned()
                        .unwrap_or_default()
                        .into_iter()
                        .map(|(k, v)| (k, json!({"f": v["shadow_in_farm"], "b": v["shadow_in_burrow"]})))
                        .collect();
                    let mut x = json!({"reg": true, "near": b["near_amount"], "usage": st["usage"], "tok": tok, "shadow": sh});
                    if self.w.aged {
                        let new = self.view(EX, "get_tokens_paged", json!({ "account_id": u })).unwrap_or_default();
                        let leg: Vec<&String> = x["tok"].as_object().unwrap().keys().filter(|t| new.get(t.as_str()).is_none()).collect();
                        x["leg"] = json!(leg);
                    }
                    x
                }
                _ => json!({"reg": false}),
            };
            self.set(d, format!("a/{}", u), v);
            let l = self.view(EX, "list_lostfound_tokens", json!({ "account_id": u })).unwrap_or(json!({}));
            self.set(d, format!("l/{}", u), l);
        }
        let r = self.view(EX, "list_rated_tokens", json!({})).unwrap_or_default();
        let mut r = r;
        if let Some(o) = r.as_object_mut() {
            for (_, v) in o.iter_mut() {
                // extra information is JSON inside a string
                let parsed = v.get("extra_info").and_then(|x| x.as_str()).and_then(|x| serde_json::from_str::<Value>(x).ok());
                if let Some(x) = parsed {
                    v["extra_info"] = x;
                }
            }
        }
        self.set(d, "rates".into(), r);
        let r = self.view(EX, "list_degen_tokens", json!({})).unwrap_or(json!("panic"));
        self.set(d, "degens".into(), r);
        let r = self.view(EX, "list_degen_oracle_configs", json!({})).unwrap_or_default();
        self.set(d, "oracles".into(), r);
    }

    fn observe_farm(&mut self, d: &mut Map<String, Value>) {
        let a = &self.w.accs[FM];
        let near = json!({"bal": a.balance.to_string(), "usage": a.usage.to_string()});
        self.set(d, "near/farm".into(), near);
        if !self.fresh(FM) {
            return;
        }
        let m = match self.view(FM, "get_metadata", json!({})) {
            Some(m) => m,
            None => return,
        };
        let meta = json!({"owner": m["owner_id"], "farmers": m["farmer_count"], "state": m["state"], "farms": m["farm_count"], "seeds": m["seed_count"],
            "rewards": self.view(FM, "list_rewards_info", json!({"from_index":0,"limit":100})).unwrap_or_default()});
        self.set(d, "fm".into(), meta);
        let mut fids = vec![];
        let mut present = BTreeSet::new();
        let fl = self.view(FM, "list_farms", json!({"from_index":0,"limit":100})).unwrap_or_default();
        for f in fl.as_array().cloned().unwrap_or_default() {
            fids.push(s(&f["farm_id"]));
            present.insert(format!("ff/{}", s(&f["farm_id"])));
            self.set(d, format!("ff/{}", s(&f["farm_id"])), f);
        }
        let ol = self.view(FM, "list_outdated_farms", json!({"from_index":0,"limit":100})).unwrap_or_default();
        for f in ol.as_array().cloned().unwrap_or_default() {
            fids.push(s(&f["farm_id"]));
            present.insert(format!("fo/{}", s(&f["farm_id"])));
            self.set(d, format!("fo/{}", s(&f["farm_id"])), f);
        }
        let sl = self.view(FM, "list_seeds_info", json!({"from_index":0,"limit":100})).unwrap_or_default();
        for (k, mut v) in sl.as_object().cloned().unwrap_or_default() {
            v["farms"] = sorted(v["farms"].clone());
            self.set(d, format!("fs/{}", k), v);
        }
        let gone: Vec<String> = self
            .w
            .obs
            .iter()
            .filter(|(k, v)| (k.starts_with("ff/") || k.starts_with("fo/")) && v.is_object())
            .map(|(k, _)| k.clone())
            .filter(|k| !present.contains(k))
            .collect();
        for k in gone {
            self.set(d, k, json!("none"));
        }
        for u in self.w.watch.clone() {
            let st = self.view(FM, "get_user_storage_state", json!({ "account_id": u })).unwrap_or_default();
            let v = if st.is_object() {
                let rw = self.view(FM, "list_rewards", json!({ "account_id": u })).unwrap_or_default();
                let sd = self.view(FM, "list_user_seeds", json!({ "account_id": u })).unwrap_or_default();
                let mut rps = Map::new();
                for f in &fids {
                    if let Some(Value::String(x)) = self.view(FM, "get_user_rps", json!({"account_id": u, "farm_id": f})) {
                        if x != "0" && x != "null" {
                            rps.insert(f.clone(), json!(x));
                        }
                    }
                }
                let mut un = Map::new();
                for f in &fids {
                    let x = self.view(FM, "get_unclaimed_reward", json!({"account_id": u, "farm_id": f})).unwrap_or(json!("panic"));
                    un.insert(f.clone(), x);
                }
                json!({"reg": true, "near": st["deposit"], "usage": st["usage"], "rewards": rw, "seeds": sd, "rps": rps, "unclaimed": un})
            } else {
                json!({"reg": false})
            };
            self.set(d, format!("fu/{}", u), v);
        }
    }

    fn bal_mut(&mut self, tok: &str, who: &str) -> &mut u128 {
        self.w.toks.get_mut(tok).unwrap().bal.entry(who.to_string()).or_insert(0)
    }

    fn push(&mut self, pred: &str, signer: &str, news: Vec<NewReceipt>, ret: Option<u64>, mut outs: Vec<u64>) -> Vec<u64> {
        let base = self.w.next;
        let mut ids = vec![];
        let mut list: Vec<Receipt> = vec![];
        for (i, n) in news.into_iter().enumerate() {
            let id = base + i as u64;
            ids.push(id);
            list.push(Receipt {
                id,
                pred: pred.to_string(),
                recv: n.recv,
                signer: signer.to_string(),
                actions: n.actions,
                wait: n.deps.iter().map(|d| (base + d, None)).collect(),
                outputs: vec![],
            });
            for d in n.deps {
                list[d as usize].outputs.push(id);
            }
        }
        if let Some(r) = ret {
            list[r as usize].outputs.append(&mut outs);
        }
        self.w.next += list.len() as u64;
        // a receipt's outputs may be returned promises of an older receipt: the waits point at the id that was promised,
        // so the data has to be delivered under the waiting receipt's recorded id
        self.w.pend.extend(list);
        ids
    }

    fn deliver(&mut self, from: u64, outs: &[u64], data: Data) {
        for o in outs {
            if let Some(r) = self.w.pend.iter_mut().find(|r| r.id == *o) {
                let mut done = false;
                for w in r.wait.iter_mut() {
                    if w.0 == from && w.1.is_none() {
                        w.1 = Some(data.clone());
                        done = true;
                    }
                }
                if !done {
                    panic!("undeliverable data {} -> {}", from, o);
                }
            }
        }
    }

    /// Executes a receipt. `over` is the script's decision for an outside contract.
    fn exec(&mut self, r: Receipt, over: Option<Value>) {
        let results: Vec<Data> = r.wait.iter().map(|(_, d)| d.clone().unwrap()).collect();
        let is_wasm = self.w.accs.get(&r.recv).map(|a| a.code.is_some()).unwrap_or(false);
        let act = r.actions.get(0).cloned();
        let mut rec = Map::new();
        rec.insert("i".into(), json!(self.n));
        self.n += 1;
        rec.insert("id".into(), json!(r.id));
        rec.insert("c".into(), json!(r.recv));
        rec.insert("p".into(), json!(r.pred));
        rec.insert("s".into(), json!(r.signer));
        rec.insert("ts".into(), json!(self.w.now.to_string()));
        rec.insert(
            "pr".into(),
            json!(results
                .iter()
                .map(|d| match d {
                    Data::Ok(v) => json!({"ok": true, "v": parse(v)}),
                    Data::Failed => json!({"ok": false}),
                })
                .collect::<Vec<_>>()),
        );
        let mut fx: Vec<Value> = vec![];
        let mut ret_v = json!({"k": "none"});
        let (ok, err, ret, mut news): (bool, String, Ret, Vec<NewReceipt>);
        let deposit = match &act {
            Some(Action::Call { deposit, .. }) => *deposit,
            Some(Action::Transfer(d)) => *d,
            _ => 0,
        };
        match act {
            Some(Action::Transfer(d)) => {
                rec.insert("t".into(), json!("transfer"));
                rec.insert("m".into(), json!("transfer"));
                rec.insert("a".into(), json!({}));
                if over == Some(json!("fail")) {
                    ok = false;
                    err = "forced".into();
                } else {
                    self.w.accs.entry(r.recv.clone()).or_default().balance += d;
                    ok = true;
                    err = String::new();
                }
                ret = Ret::None;
                news = vec![];
            }
            Some(Action::Call { method, args, deposit, gas }) => {
                rec.insert("m".into(), json!(method));
                let a = parse(&args);
                // messages carried as JSON text, for the specification to read
                for (k, n) in &[("msg", "msgj"), ("extra_info", "x")] {
                    if let Some(t) = a.get(*k).and_then(|t| t.as_str()) {
                        if let Ok(v) = serde_json::from_str::<Value>(t) {
                            if v.is_object() {
                                rec.insert(n.to_string(), norm(v));
                            }
                        }
                    }
                }
                rec.insert("a".into(), a);
                if is_wasm && over != Some(json!("fail")) {
                    rec.insert("t".into(), json!("call"));
                    let pr: Vec<PromiseResult> = results
                        .iter()
                        .map(|d| match d {
                            Data::Ok(v) => PromiseResult::Successful(v.clone()),
                            Data::Failed => PromiseResult::Failed,
                        })
                        .collect();
                    let now = self.w.now;
                    let acc = self.w.accs.get_mut(&r.recv).unwrap();
                    let o = self.vm.run(&r.recv, acc, &r.pred, &r.signer, &method, &args, deposit, gas, now, &pr, false);
                    ok = o.ok;
                    err = o.err;
                    ret = o.ret;
                    news = o.receipts;
                    rec.insert("gas".into(), json!((o.gas / 1_000_000_000) as u64));
                    if !o.logs.is_empty() {
                        let ev: Vec<Value> =
                            o.logs.iter().filter(|l| l.starts_with("EVENT_JSON:")).map(|l| parse(l[11..].trim().as_bytes())).collect();
                        if !ev.is_empty() {
                            rec.insert("ev".into(), json!(ev));
                        }
                    }
                } else {
                    rec.insert("t".into(), json!("env"));
                    let x = self.stub(&r, &method, &parse(&args), deposit, &results, over);
                    ok = x.0;
                    err = x.1;
                    ret = x.2;
                    news = x.3;
                }
            }
            Some(Action::Deploy(_)) => {
                // new code and the calls that come with it, all or nothing
                rec.insert("t".into(), json!("call"));
                rec.insert("m".into(), json!("deploy_contract"));
                let old = self.w.accs[&r.recv].clone();
                self.memo.clear();
                let (mut good, mut why) = (true, String::new());
                let now = self.w.now;
                let mut same = false;
                for x in &r.actions {
                    let acc = self.w.accs.get_mut(&r.recv).unwrap();
                    match x {
                        Action::Deploy(b) => {
                            let hash = near_primitives::hash::hash(b).as_ref().to_vec();
                            same = self.codes.values().any(|c| c.hash == hash);
                            acc.code = Some(Rc::new(Code { hash, bytes: b.clone() }));
                            acc.version += 1;
                        }
                        Action::Call { method, args, deposit, gas } => {
                            let o = self.vm.run(&r.recv, acc, &r.pred, &r.signer, method, args, *deposit, *gas, now, &[], false);
                            good = good && o.ok && o.receipts.is_empty();
                            why = o.err;
                        }
                        _ => good = false,
                    }
                    if !good {
                        break;
                    }
                }
                rec.insert("a".into(), json!({"same": same, "with": r.actions.iter().filter_map(|x| match x { Action::Call { method, .. } => Some(method.clone()), _ => None }).collect::<Vec<_>>()}));
                if !good {
                    self.w.accs.insert(r.recv.clone(), old);
                }
                ok = good;
                err = why;
                ret = Ret::None;
                news = vec![];
            }
            Some(Action::Other(k)) => {
                rec.insert("t".into(), json!("env"));
                rec.insert("m".into(), json!(k));
                rec.insert("a".into(), json!({}));
                ok = true;
                err = String::new();
                ret = Ret::None;
                news = vec![];
            }
            None => {
                ok = true;
                err = String::new();
                ret = Ret::None;
                news = vec![];
            }
        }
        rec.insert("d".into(), json!(deposit.to_string()));
        rec.insert("ok".into(), json!(ok));
        if !ok {
            let short: String = err.chars().take(300).collect();
            rec.insert("err".into(), json!(short));
            // the attached deposit goes back to the caller
            self.w.accs.entry(r.pred.clone()).or_default().balance += deposit;
        }
        let mut outs = r.outputs.clone();
        let base = self.w.next;
        for (k, n) in news.iter().enumerate() {
            let kind: Vec<Value> = n
                .actions
                .iter()
                .map(|a| match a {
                    Action::Transfer(d) => json!({"m": "transfer", "a": {}, "d": d.to_string(), "g": 0}),
                    Action::Call { method, args, deposit, gas } => {
                        json!({"m": method, "a": parse(args), "d": deposit.to_string(), "g": (gas / TGAS) as u64})
                    }
                    Action::Deploy(_) => json!({"m": "deploy_contract", "a": {}, "d": "0", "g": 0}),
                    Action::Other(k) => json!({"m": k, "a": {}, "d": "0", "g": 0}),
                })
                .collect();
            let mut e = kind.into_iter().next().unwrap_or(json!({"m": "none", "a": {}, "d": "0", "g": 0}));
            e["to"] = json!(n.recv);
            e["id"] = json!(base + k as u64);
            // dependencies are 1-based positions in this list
            e["dep"] = json!(n.deps.iter().map(|d| d + 1).collect::<Vec<_>>());
            fx.push(e);
        }
        if ok {
            match ret {
                Ret::None => {
                    self.deliver(r.id, &outs, Data::Ok(vec![]));
                    self.push(&r.recv, &r.signer, std::mem::take(&mut news), None, vec![]);
                }
                Ret::Value(v) => {
                    ret_v = json!({"k": "val", "v": parse(&v)});
                    self.deliver(r.id, &outs, Data::Ok(v));
                    self.push(&r.recv, &r.signer, std::mem::take(&mut news), None, vec![]);
                }
                Ret::Promise(i) => {
                    ret_v = json!({"k": "prom", "i": i + 1});
                    // whoever waited for this receipt now waits for the returned one
                    let new_id = base + i;
                    for o in &outs {
                        if let Some(p) = self.w.pend.iter_mut().find(|p| p.id == *o) {
                            for w in p.wait.iter_mut() {
                                if w.0 == r.id {
                                    w.0 = new_id;
                                }
                            }
                        }
                    }
                    let o2 = std::mem::take(&mut outs);
                    self.push(&r.recv, &r.signer, std::mem::take(&mut news), Some(i), o2);
                }
            }
        } else {
            self.deliver(r.id, &outs, Data::Failed);
        }
        rec.insert("fx".into(), json!(fx));
        rec.insert("ret".into(), ret_v);
        let mut delta = Map::new();
        self.observe(&mut delta);
        rec.insert("delta".into(), Value::Object(delta));
        rec.insert(
            "pend".into(),
            json!(self.w.pend.iter().map(|r| json!({"id": r.id, "to": r.recv, "p": r.pred, "ready": r.ready(),
                "m": match r.actions.get(0) { Some(Action::Call{method,..}) => method.clone(), Some(Action::Transfer(_)) => "transfer".into(), _ => "other".into() }})).collect::<Vec<_>>()),
        );
        self.emit(Value::Object(rec));
    }

    fn emit(&mut self, v: Value) {
        let kind = v["t"].as_str().unwrap_or("");
        let home = v["c"] == "ex" || v["c"] == "farm";
        if home && v["ok"] == true && (kind == "view" || kind == "call") {
            self.last = if kind == "view" { v["v"].clone() } else { v["ret"]["v"].clone() };
        }
        if self.w.past {
            if std::env::var("PAST").is_ok() {
                eprintln!("{} {} {} {} {} {}", v["p"], v["c"], v["m"], v["ok"], v["err"], v["v"]);
            }
            return;
        }
        writeln!(self.out, "{}", v).unwrap();
        self.out.flush().unwrap();
    }

    /// the code of an earlier release or, by the name of a contract, of the current tree
    fn code(&self, name: &str) -> Rc<Code> {
        if let Some(c) = self.codes.get(name) {
            return c.clone();
        }
        let dir = std::env::var("VERIF_RELEASES").unwrap_or_else(|_| "/repo/releases".into());
        let bytes = std::fs::read(format!("{}/{}", dir, name)).expect("no such release");
        let hash = near_primitives::hash::hash(&bytes).as_ref().to_vec();
        Rc::new(Code { hash, bytes })
    }

    fn number(&self, path: &str) -> u128 {
        let mut parts = path.split('/');
        let mut v = self.kept.get(parts.next().unwrap()).unwrap_or(&Value::Null);
        for p in parts {
            v = match p.parse::<usize>() {
                Ok(n) if v.is_array() => v.get(n),
                _ => v.get(p),
            }
            .unwrap_or(&Value::Null);
        }
        match v {
            Value::Number(n) => n.as_u64().map(|n| n as u128),
            v => amt(v),
        }
        .unwrap_or(0)
    }

    /// Replaces @{name/path+n} by a remembered number changed by n; -n and %n (percent) likewise. @{x/path~y/path} is a difference of two.
    /// What is not a number counts as 0.
    fn fill(&self, line: &str) -> String {
        let mut out = String::new();
        let mut rest = line;
        while let Some(k) = rest.find("@{") {
            out.push_str(&rest[..k]);
            let e = k + rest[k..].find('}').expect("open @{");
            let body = &rest[k + 2..e];
            let cut = body.find(|c| c == '+' || c == '-' || c == '%').unwrap_or(body.len());
            let x = body[..cut].split('~').map(|p| self.number(p)).reduce(|a, b| a.saturating_sub(b)).unwrap();
            let n: u128 = body.get(cut + 1..).map_or(0, |t| t.parse().expect("number after @{"));
            let y = match body.as_bytes().get(cut) {
                Some(b'-') => x.saturating_sub(n),
                Some(b'%') => (x / 100).saturating_mul(n) + x % 100 * n / 100,
                _ => x.saturating_add(n),
            };
            out.push_str(&y.to_string());
            rest = &rest[e + 1..];
        }
        out.push_str(rest);
        out
    }

    /// The outside world: fungible tokens keep an honest ledger, everything else answers what the script says.
    fn stub(
        &mut self,
        r: &Receipt,
        method: &str,
        a: &Value,
        deposit: u128,
        results: &[Data],
        over: Option<Value>,
    ) -> (bool, String, Ret, Vec<NewReceipt>) {
        let fail = |m: &str| (false, m.to_string(), Ret::None, vec![]);
        if let Some(o) = &over {
            if o == "fail" {
                return fail("forced");
            }
            if let Some(v) = o.get("ok") {
                return (true, String::new(), Ret::Value(v.to_string().into_bytes()), vec![]);
            }
        }
        let tok = r.recv.clone();
        if self.w.toks.contains_key(&tok) {
            match method {
                "ft_transfer" | "ft_transfer_call" => {
                    let to = s(&a["receiver_id"]);
                    let x = match amt(&a["amount"]) {
                        Some(x) => x,
                        None => return fail("bad amount"),
                    };
                    if deposit != 1 {
                        return fail("one yocto");
                    }
                    if x == 0 {
                        return fail("zero amount");
                    }
                    if to == r.pred {
                        return fail("self transfer");
                    }
                    if self.w.toks[&tok].blocked.contains(&to) {
                        return fail("receiver not registered");
                    }
                    if *self.bal_mut(&tok, &r.pred) < x {
                        return fail("balance");
                    }
                    *self.bal_mut(&tok, &r.pred) -= x;
                    *self.bal_mut(&tok, &to) += x;
                    if method == "ft_transfer" {
                        return (true, String::new(), Ret::None, vec![]);
                    }
                    let on = json!({"sender_id": r.pred, "amount": x.to_string(), "msg": s(&a["msg"])});
                    let res = json!({"sender_id": r.pred, "receiver_id": to, "amount": x.to_string()});
                    let news = vec![
                        NewReceipt {
                            recv: to,
                            deps: vec![],
                            actions: vec![Action::Call {
                                method: "ft_on_transfer".into(),
                                args: on.to_string().into_bytes(),
                                deposit: 0,
                                gas: 250 * TGAS,
                            }],
                        },
                        NewReceipt {
                            recv: tok,
                            deps: vec![0],
                            actions: vec![Action::Call {
                                method: "ft_resolve_transfer".into(),
                                args: res.to_string().into_bytes(),
                                deposit: 0,
                                gas: 10 * TGAS,
                            }],
                        },
                    ];
                    return (true, String::new(), Ret::Promise(1), news);
                }
                "ft_resolve_transfer" => {
                    let x = amt(&a["amount"]).unwrap();
                    let to = s(&a["receiver_id"]);
                    let from = s(&a["sender_id"]);
                    let unused = match results.get(0) {
                        Some(Data::Ok(v)) => amt(&parse(v)).unwrap_or(x).min(x),
                        _ => x,
                    };
                    let back = unused.min(*self.bal_mut(&tok, &to));
                    *self.bal_mut(&tok, &to) -= back;
                    *self.bal_mut(&tok, &from) += back;
                    return (true, String::new(), Ret::Value(json!((x - back).to_string()).to_string().into_bytes()), vec![]);
                }
                "near_withdraw" if tok == self.w.wnear => {
                    let x = amt(&a["amount"]).unwrap_or(0);
                    if deposit != 1 || x == 0 || *self.bal_mut(&tok, &r.pred) < x {
                        return fail("near_withdraw");
                    }
                    *self.bal_mut(&tok, &r.pred) -= x;
                    let news = vec![NewReceipt { recv: r.pred.clone(), deps: vec![], actions: vec![Action::Transfer(x)] }];
                    return (true, String::new(), Ret::None, news);
                }
                _ => return fail("no such method"),
            }
        }
        match method {
            "mft_on_transfer" | "ft_on_transfer" => (true, String::new(), Ret::Value(b"\"0\"".to_vec()), vec![]),
            "on_cast_shadow" | "on_remove_shadow" => (true, String::new(), Ret::None, vec![]),
            _ => fail("no contract"),
        }
    }

    fn init(&mut self, c: &Value) {
        let mut w = World { now: 1_700_000_000_000_000_000, wnear: "wnear".into(), ..Default::default() };
        if let Some(n) = c.get("now").and_then(|v| v.as_str()) {
            w.now = n.parse().unwrap();
        }
        w.watch = c["watch"].as_array().unwrap().iter().map(s).collect();
        for t in c["tokens"].as_array().unwrap() {
            let mut tk = Token::default();
            for (u, v) in c["ledger"].get(&s(t)).and_then(|v| v.as_object()).cloned().unwrap_or_default() {
                tk.bal.insert(u, amt(&v).unwrap());
            }
            w.toks.insert(s(t), tk);
        }
        for u in &w.watch {
            w.accs.insert(u.clone(), Account { balance: 1_000_000_000_000_000_000_000_000_000, ..Default::default() });
        }
        w.past = c.get("code").is_some();
        w.aged = w.past;
        self.w = w;
        if let Some(a) = c.get("exchange") {
            let code = self.code(c.get("code").and_then(|v| v.as_str()).unwrap_or("ex"));
            let mut acc = Account { balance: 100_000_000_000_000_000_000_000_000, code: Some(code), usage: 1_000_000, ..Default::default() };
            let o = self.vm.run(EX, &mut acc, EX, EX, "new", a.to_string().as_bytes(), 0, 300 * TGAS, self.w.now, &[], false);
            if !o.ok {
                eprintln!("init failed {}", o.err);
            }
            self.w.accs.insert(EX.into(), acc);
        }
        if let Some(a) = c.get("farming") {
            let code = self.code(c.get("farmcode").and_then(|v| v.as_str()).unwrap_or("farm"));
            let mut acc = Account { balance: 100_000_000_000_000_000_000_000_000, code: Some(code), usage: 400_000, ..Default::default() };
            let o = self.vm.run(FM, &mut acc, FM, FM, "new", a.to_string().as_bytes(), 0, 300 * TGAS, self.w.now, &[], false);
            if !o.ok {
                eprintln!("init failed {}", o.err);
            }
            self.w.accs.insert(FM.into(), acc);
        }
        let mut d = Map::new();
        self.observe(&mut d);
        let n = self.n;
        self.n += 1;
        let now = self.w.now.to_string();
        self.emit(json!({"i": n, "t": "init", "m": "init", "sc": c.get("sc").cloned().unwrap_or(json!("?")), "ts": now, "delta": d}));
    }

    fn pick(&mut self, c: &Value) -> Option<Receipt> {
        let ready: Vec<usize> = (0..self.w.pend.len()).filter(|i| self.w.pend[*i].ready()).collect();
        if ready.is_empty() {
            return None;
        }
        let idx = match c.get("sel") {
            Some(Value::Number(n)) => ready[(n.as_u64().unwrap() as usize) % ready.len()],
            Some(Value::String(x)) if x == "last" => ready[ready.len() - 1],
            Some(Value::Object(o)) => {
                // by receiver / method
                *ready.iter().find(|i| {
                    let r = &self.w.pend[**i];
                    let m = match r.actions.get(0) {
                        Some(Action::Call { method, .. }) => method.as_str(),
                        Some(Action::Deploy(_)) => "deploy_contract",
                        _ => "transfer",
                    };
                    o.get("to").map(|v| v == &json!(r.recv)).unwrap_or(true)
                        && o.get("m").map(|v| v == m).unwrap_or(true)
                        && o.get("id").map(|v| v.as_u64() == Some(r.id)).unwrap_or(true)
                        && o.get("a").and_then(|v| v.as_object()).map(|w| match r.actions.get(0) {
                            Some(Action::Call { args, .. }) => { let x = parse(args); w.iter().all(|(k, v)| x.get(k) == Some(v)) }
                            _ => w.is_empty(),
                        }).unwrap_or(true)
                })?
            }
            _ => ready[0],
        };
        Some(self.w.pend.remove(idx))
    }

    fn command(&mut self, c: &Value) {
        match c["c"].as_str().unwrap_or("") {
            "reset" => self.init(c),
            "light" => self.light = c["v"].as_bool().unwrap_or(false),
            "time" => {
                let d: u64 = s(&c["adv"]).parse().unwrap();
                self.w.now += d;
            }
            "block" => {
                self.w.toks.get_mut(&s(&c["tok"])).unwrap().blocked.insert(s(&c["who"]));
            }
            "unblock" => {
                self.w.toks.get_mut(&s(&c["tok"])).unwrap().blocked.remove(&s(&c["who"]));
            }
            "mint" => {
                let x = amt(&c["amount"]).unwrap();
                *self.bal_mut(&s(&c["tok"]), &s(&c["who"])) += x;
            }
            "keep" => {
                // the last value, or a part of the observed state
                let v = match c.get("sec") {
                    Some(k) => self.w.obs.get(&s(k)).cloned().unwrap_or(Value::Null),
                    None => self.last.clone(),
                };
                self.kept.insert(s(&c["as"]), v);
            }
            "snap" => {
                self.snaps.insert(s(&c["k"]), self.w.clone());
                let n = self.n;
                self.n += 1;
                let now = self.w.now.to_string();
                self.emit(json!({"i": n, "t": "snap", "m": "snap", "c": "", "k": c["k"], "ts": now, "delta": {}}));
            }
            "restore" => {
                self.w = self.snaps[&s(&c["k"])].clone();
                let n = self.n;
                self.n += 1;
                let obs: Map<String, Value> = self.w.obs.clone().into_iter().collect();
                let now = self.w.now.to_string();
                self.emit(json!({"i": n, "t": "init", "m": "init", "k": c["k"], "sc": c.get("sc").cloned().unwrap_or(json!("?")), "ts": now, "delta": obs}));
            }
            "call" => {
                let deposit = c.get("d").and_then(amt).unwrap_or(0);
                let gas = c.get("gas").and_then(|v| v.as_u64()).map(|g| g * TGAS).unwrap_or(300 * TGAS);
                let pred = s(&c["p"]);
                {
                    let a = self.w.accs.entry(pred.clone()).or_default();
                    a.balance = a.balance.saturating_sub(deposit);
                }
                let id = self.w.next;
                self.w.next += 1;
                // results of promises that the caller waited for before this call, as a contract of his could
                let given = c.get("pr").and_then(|v| v.as_array()).map_or(vec![], |l| {
                    l.iter()
                        .map(|x| (0, Some(x.get("ok").map_or(Data::Failed, |v| Data::Ok(v.to_string().into_bytes())))))
                        .collect()
                });
                let r = Receipt {
                    id,
                    pred: pred.clone(),
                    recv: s(&c["to"]),
                    signer: c.get("s").map(s).unwrap_or(pred),
                    actions: vec![Action::Call {
                        method: s(&c["m"]),
                        args: match c.get("code") {
                            Some(k) => self.code(&s(k)).bytes.clone(),
                            None => c["a"].to_string().into_bytes(),
                        },
                        deposit,
                        gas,
                    }],
                    wait: given,
                    outputs: vec![],
                };
                self.exec(r, c.get("out").cloned());
            }
            "show" => {
                // the earlier release is gone: from here on everything is recorded
                self.w.past = false;
                self.w.obs.clear();
                self.w.seen.clear();
                let mut d = Map::new();
                self.observe(&mut d);
                let n = self.n;
                self.n += 1;
                let now = self.w.now.to_string();
                self.emit(json!({"i": n, "t": "init", "m": "show", "sc": c["sc"], "ramp": c["ramp"], "ts": now, "delta": d}));
            }
            // rewrites an account of the exchange as an early release stored it: the tokens listed in the account's own record
            "age" => {
                let who = s(&c["who"]);
                let old: Vec<String> = c["old"].as_array().unwrap().iter().map(s).collect();
                let held = self.ask(EX, "get_deposits", json!({ "account_id": who }), true).unwrap();
                let str = |t: &str| [&(t.len() as u32).to_le_bytes()[..], t.as_bytes()].concat();
                let num = |v: &Value| amt(v).unwrap().to_le_bytes().to_vec();
                let mine = |kind: &str| [&[5u8][..], &str(&who), kind.as_bytes()].concat();
                let acc = self.w.accs.get_mut(EX).unwrap();
                let key = [&[1u8][..], &str(&who)].concat();
                let rec = acc.storage[&key].clone();
                let near = &rec[1..17];
                assert!(rec[0] == 2 && rec[17..21] == [0, 0, 0, 0]);
                let all = mine("");
                acc.storage.retain(|k, _| !k.starts_with(&all));
                let (mut leg, mut n) = (vec![], 0u64);
                for (t, v) in held.as_object().unwrap() {
                    if old.contains(t) || old.contains(&"*".to_string()) {
                        leg.push((t, v));
                    } else {
                        acc.storage.insert([mine("i"), str(t)].concat(), n.to_le_bytes().to_vec());
                        acc.storage.insert([mine("k"), n.to_le_bytes().to_vec()].concat(), str(t));
                        acc.storage.insert([mine("v"), n.to_le_bytes().to_vec()].concat(), num(v));
                        n += 1;
                    }
                }
                let mut map = (leg.len() as u32).to_le_bytes().to_vec();
                for (t, v) in &leg {
                    map.extend([str(t), num(v)].concat());
                }
                let set = |p: Vec<u8>| [&(p.len() as u32).to_le_bytes()[..], &p].concat();
                let part = |n: u64, k: &str| [&n.to_le_bytes()[..], &set(mine(k))].concat();
                let toks = [set(mine("i")), part(n, "k"), part(n, "v")].concat();
                let tag = c["tag"].as_u64().unwrap();
                let plain = 17 + 4 + toks.len(); // where storage_used is
                let new = match tag {
                    0 => [&[0u8], near, &map, &rec[plain..plain + 8]].concat(),
                    1 => [&[1u8], near, &map, &toks, &rec[plain..plain + 8]].concat(),
                    _ => [&[2u8], near, &map, &toks, &rec[plain..]].concat(),
                };
                acc.storage.insert(key, new);
                acc.version += 1;
                self.w.aged = true;
                self.memo.clear();
            }
            // rewrites a record: `cut` bytes off its end, `v` over what is there from byte `at`
            "store" => {
                let hex = |t: &str| (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
                let acc = self.w.accs.get_mut(&s(&c["who"])).unwrap();
                let rec = acc.storage.entry(hex(&s(&c["k"]))).or_default();
                let n = rec.len() - c["cut"].as_u64().unwrap_or(0) as usize;
                rec.truncate(n);
                let (at, v) = (c["at"].as_u64().unwrap_or(0) as usize, hex(&s(&c["v"])));
                rec[at..at + v.len()].copy_from_slice(&v);
                acc.version += 1;
                self.memo.clear();
            }
            "deploy" => {
                let code = self.code(&s(&c["code"]));
                let acc = self.w.accs.get_mut(&s(&c["who"])).unwrap();
                acc.code = Some(code);
                acc.version += 1;
                self.memo.clear();
            }
            "dump" => {
                for (k, v) in &self.w.accs[&s(&c["who"])].storage {
                    eprintln!("{} = {}", k.iter().map(|b| format!("{:02x}", b)).collect::<String>(), v.iter().map(|b| format!("{:02x}", b)).collect::<String>());
                }
            }
            "exec" => {
                if let Some(r) = self.pick(c) {
                    self.exec(r, c.get("out").cloned());
                }
            }
            "drain" => {
                let mut left = 200;
                while left > 0 {
                    left -= 1;
                    match self.pick(&json!({})) {
                        Some(r) => self.exec(r, None),
                        None => break,
                    }
                }
            }
            "view" => {
                let (a, v) = match c.get("pages") {
                    Some(k) => self.paged(&s(&c["to"]), &s(&c["m"]), c["a"].clone(), k.as_u64().unwrap()),
                    None => (c["a"].clone(), self.ask(&s(&c["to"]), &s(&c["m"]), c["a"].clone(), true)),
                };
                let n = self.n;
                self.n += 1;
                let ok = v.is_some();
                // what a view showed before an upgrade (as: a name for it) is compared with what it shows after
                if let Some(k) = c.get("as") {
                    if self.w.past {
                        self.kept.insert(s(k), v.clone().unwrap_or(Value::Null));
                    } else if self.kept.get(&s(k)).map_or(true, |x| x.is_null()) {
                        return; // unanswered by the earlier release
                    } else {
                        let old = self.kept[&s(k)].clone();
                        let now = self.w.now.to_string();
                        self.emit(json!({"i": n, "t": "same", "c": c["to"], "m": c["m"], "a": norm(c["a"].clone()), "ts": now, "ok": ok, "old": old, "new": v.map(norm).unwrap_or(json!("panic")), "delta": {}}));
                        return;
                    }
                }
                let now = self.w.now.to_string();
                self.emit(json!({"i": n, "t": "view", "c": c["to"], "m": c["m"], "a": norm(a), "ts": now, "ok": ok, "v": v.map(norm).unwrap_or(json!("panic")), "delta": {}}));
            }
            x => panic!("unknown command {}", x),
        }
    }
}

fn main() {
    let dir = std::env::args().nth(1).expect("usage: refsim WASM_DIR < script");
    if dir == "--version" {
        return println!("refsim 1");
    }
    let mut codes = BTreeMap::new();
    for (k, f) in &[("ex", "ref_exchange.wasm"), ("farm", "ref_farming.wasm")] {
        let bytes = match std::fs::read(format!("{}/{}", dir, f)) {
            Ok(b) => b,
            Err(_) => continue, // a script that uses this contract will fail
        };
        let hash = near_primitives::hash::hash(&bytes).as_ref().to_vec();
        codes.insert(k.to_string(), Rc::new(Code { hash, bytes }));
    }
    let mut sim = Sim {
        vm: Vm::new(),
        w: World::default(),
        snaps: BTreeMap::new(),
        codes,
        out: std::io::BufWriter::new(std::io::stdout()),
        memo: BTreeMap::new(),
        light: false,
        n: 0,
        last: Value::Null,
        kept: BTreeMap::new(),
    };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&sim.fill(&line)).expect("bad command");
        sim.command(&c);
    }
}
