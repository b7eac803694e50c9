//! A miniature NEAR runtime. It runs the wasm contracts of the repository in the real NEAR VM and leaves every choice the
//! network makes (which receipt runs next, whether an outside contract fails, what time it is) to the script.
use near_primitives::config::VMConfig;
use near_primitives::profile::ProfileData;
use near_primitives::runtime::fees::RuntimeFeesConfig;
use near_primitives::version::PROTOCOL_VERSION;
use near_vm_logic::types::{PromiseResult, PublicKey, ReturnData};
use near_vm_logic::{External, VMContext, VMLogicError, ValuePtr};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::cell::RefCell;
use std::rc::Rc;

pub type Res<T> = std::result::Result<T, VMLogicError>;

#[derive(Clone, Default)]
pub struct Account {
    pub balance: u128,
    pub code: Option<Rc<Code>>,
    pub storage: BTreeMap<Vec<u8>, Vec<u8>>,
    pub usage: u64,
    pub version: u64,
}

pub struct Code {
    pub hash: Vec<u8>,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Action {
    Transfer(u128),
    Call { method: String, args: Vec<u8>, deposit: u128, gas: u64 },
    Deploy(Vec<u8>),
    Other(&'static str),
}

#[derive(Clone, Debug)]
pub enum Data {
    Ok(Vec<u8>),
    Failed,
}

#[derive(Clone, Debug)]
pub struct Receipt {
    pub id: u64,
    pub pred: String,
    pub recv: String,
    pub signer: String,
    pub actions: Vec<Action>,
    pub wait: Vec<(u64, Option<Data>)>,
    pub outputs: Vec<u64>,
}

impl Receipt {
    pub fn ready(&self) -> bool {
        self.wait.iter().all(|(_, d)| d.is_some())
    }
}

struct Ptr(Vec<u8>);
impl ValuePtr for Ptr {
    fn len(&self) -> u32 {
        self.0.len() as u32
    }
    fn deref(&self) -> Res<Vec<u8>> {
        Ok(self.0.clone())
    }
}

pub struct NewReceipt {
    pub recv: String,
    pub deps: Vec<u64>,
    pub actions: Vec<Action>,
}

struct Ext<'a> {
    storage: &'a mut BTreeMap<Vec<u8>, Vec<u8>>,
    undo: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    receipts: Vec<NewReceipt>,
    reads: RefCell<BTreeMap<Vec<u8>, Option<Vec<u8>>>>,
    watch: bool,
}

impl<'a> Ext<'a> {
    fn read(&self, key: &[u8]) {
        if self.watch && !self.reads.borrow().contains_key(key) {
            self.reads.borrow_mut().insert(key.to_vec(), self.storage.get(key).cloned());
        }
    }
}

impl<'a> External for Ext<'a> {
    fn storage_set(&mut self, key: &[u8], value: &[u8]) -> Res<()> {
        self.read(key);
        let old = self.storage.insert(key.to_vec(), value.to_vec());
        self.undo.push((key.to_vec(), old));
        Ok(())
    }
    fn storage_get<'b>(&'b self, key: &[u8]) -> Res<Option<Box<dyn ValuePtr + 'b>>> {
        self.read(key);
        Ok(self.storage.get(key).map(|v| Box::new(Ptr(v.clone())) as Box<dyn ValuePtr>))
    }
    fn storage_remove(&mut self, key: &[u8]) -> Res<()> {
        self.read(key);
        let old = self.storage.remove(key);
        self.undo.push((key.to_vec(), old));
        Ok(())
    }
    fn storage_remove_subtree(&mut self, prefix: &[u8]) -> Res<()> {
        let keys: Vec<Vec<u8>> = self.storage.keys().filter(|k| k.starts_with(prefix)).cloned().collect();
        for k in keys {
            let old = self.storage.remove(&k);
            self.undo.push((k, old));
        }
        Ok(())
    }
    fn storage_has_key(&mut self, key: &[u8]) -> Res<bool> {
        self.read(key);
        Ok(self.storage.contains_key(key))
    }
    fn create_receipt(&mut self, deps: Vec<u64>, receiver_id: String) -> Res<u64> {
        self.receipts.push(NewReceipt { recv: receiver_id, deps, actions: vec![] });
        Ok(self.receipts.len() as u64 - 1)
    }
    fn append_action_create_account(&mut self, r: u64) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Other("create_account"));
        Ok(())
    }
    fn append_action_deploy_contract(&mut self, r: u64, code: Vec<u8>) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Deploy(code));
        Ok(())
    }
    fn append_action_function_call(&mut self, r: u64, method: Vec<u8>, args: Vec<u8>, deposit: u128, gas: u64) -> Res<()> {
        let method = String::from_utf8_lossy(&method).to_string();
        self.receipts[r as usize].actions.push(Action::Call { method, args, deposit, gas });
        Ok(())
    }
    fn append_action_transfer(&mut self, r: u64, amount: u128) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Transfer(amount));
        Ok(())
    }
    fn append_action_stake(&mut self, r: u64, _s: u128, _k: PublicKey) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Other("stake"));
        Ok(())
    }
    fn append_action_add_key_with_full_access(&mut self, r: u64, _k: PublicKey, _n: u64) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Other("add_full_access_key"));
        Ok(())
    }
    fn append_action_add_key_with_function_call(
        &mut self,
        r: u64,
        _k: PublicKey,
        _n: u64,
        _a: Option<u128>,
        _recv: String,
        _m: Vec<Vec<u8>>,
    ) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Other("add_key"));
        Ok(())
    }
    fn append_action_delete_key(&mut self, r: u64, _k: PublicKey) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Other("delete_key"));
        Ok(())
    }
    fn append_action_delete_account(&mut self, r: u64, _b: String) -> Res<()> {
        self.receipts[r as usize].actions.push(Action::Other("delete_account"));
        Ok(())
    }
    fn get_touched_nodes_count(&self) -> u64 {
        0
    }
    fn reset_touched_nodes_counter(&mut self) {}
    fn validator_stake(&self, _a: &String) -> Res<Option<u128>> {
        Ok(None)
    }
    fn validator_total_stake(&self) -> Res<u128> {
        Ok(0)
    }
}

pub enum Ret {
    None,
    Value(Vec<u8>),
    Promise(u64),
}

pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub ret: Ret,
    pub receipts: Vec<NewReceipt>,
    pub logs: Vec<String>,
    pub gas: u64,
    pub reads: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
}

pub struct Vm {
    pub cfg: VMConfig,
    pub fees: RuntimeFeesConfig,
    pub view_cfg: VMConfig,
}

impl Vm {
    pub fn new() -> Self {
        let mut cfg = VMConfig::default();
        cfg.limit_config.max_number_registers = 1000;
        // instructions cost a tenth: what is refused for want of gas at extreme values only is not what is checked here
        cfg.regular_op_cost /= 10;
        let mut view_cfg = cfg.clone();
        view_cfg.limit_config.max_gas_burnt_view = u64::max_value() / 2;
        Vm { cfg, fees: RuntimeFeesConfig::default(), view_cfg }
    }

    /// Runs one function call against the account and applies or reverts its effects.
    pub fn run(
        &self,
        who: &str,
        acc: &mut Account,
        pred: &str,
        signer: &str,
        method: &str,
        args: &[u8],
        deposit: u128,
        gas: u64,
        now: u64,
        results: &[PromiseResult],
        view: bool,
    ) -> Outcome {
        let code = match &acc.code {
            Some(c) => c.clone(),
            None => {
                return Outcome { ok: false, err: "no code".into(), ret: Ret::None, receipts: vec![], logs: vec![], gas: 0, reads: BTreeMap::new() }
            }
        };
        let ctx = VMContext {
            current_account_id: who.to_string(),
            signer_account_id: signer.to_string(),
            signer_account_pk: vec![0u8; 33],
            predecessor_account_id: pred.to_string(),
            input: args.to_vec(),
            block_index: now / 1_000_000_000,
            block_timestamp: now,
            epoch_height: 1,
            account_balance: acc.balance,
            account_locked_balance: 0,
            storage_usage: acc.usage,
            attached_deposit: deposit,
            prepaid_gas: if view { 300_000_000_000_000 * 1000 } else { gas },
            random_seed: vec![0u8; 32],
            is_view: view,
            output_data_receivers: vec![],
        };
        let mut ext = Ext { storage: &mut acc.storage, undo: vec![], receipts: vec![], reads: RefCell::default(), watch: view };
        let profile = ProfileData::new_disabled();
        let (out, err) = near_vm_runner::run(
            code.hash.clone(),
            &code.bytes,
            method,
            &mut ext,
            ctx,
            if view { &self.view_cfg } else { &self.cfg },
            &self.fees,
            results,
            PROTOCOL_VERSION,
            None,
            &profile,
        );
        let undo = std::mem::take(&mut ext.undo);
        let receipts = std::mem::take(&mut ext.receipts);
        let reads = ext.reads.take();
        drop(ext);
        let wrote = !undo.is_empty();
        if err.is_some() || view {
            for (k, v) in undo.into_iter().rev() {
                match v {
                    Some(v) => acc.storage.insert(k, v),
                    None => acc.storage.remove(&k),
                };
            }
        }
        let (logs, gas) = out.as_ref().map(|o| (o.logs.clone(), o.burnt_gas)).unwrap_or_default();
        if let Some(e) = err {
            return Outcome { ok: false, err: format!("{:?}", e), ret: Ret::None, receipts: vec![], logs, gas, reads };
        }
        let out = out.unwrap();
        if !view {
            acc.balance = out.balance;
            acc.usage = out.storage_usage;
            if wrote {
                acc.version += 1;
            }
        }
        let ret = match out.return_data {
            ReturnData::None => Ret::None,
            ReturnData::Value(v) => Ret::Value(v),
            ReturnData::ReceiptIndex(i) => Ret::Promise(i),
        };
        Outcome { ok: true, err: String::new(), ret, receipts, logs, gas, reads }
    }
}

/// Makes a JSON value that the specification can read: no nulls, no numbers beyond 31 bits.
pub fn norm(v: Value) -> Value {
    match v {
        Value::Null => json!("null"),
        Value::Number(n) => match n.as_i64() {
            Some(i) if i.abs() < 2_147_483_647 => json!(i),
            _ => json!(n.to_string()),
        },
        Value::Array(a) => Value::Array(a.into_iter().map(norm).collect()),
        Value::Object(o) => {
            let m: serde_json::Map<String, Value> =
                o.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, norm(v))).collect();
            Value::Object(m)
        }
        v => v,
    }
}

pub fn parse(bytes: &[u8]) -> Value {
    if bytes.is_empty() {
        return json!("");
    }
    serde_json::from_slice(bytes).map(norm).unwrap_or_else(|_| json!(format!("raw:{}", bytes.len())))
}
