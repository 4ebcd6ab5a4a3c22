mod abi;
mod cli;
mod codec;
mod e2e;
mod ffi;
mod gas;
mod json;
mod runtime;
mod sdk;
mod state;
mod values;

pub use codec::hex;
pub use e2e::prepare;

use crate::runner::Property;

pub fn all() -> Vec<Property> {
    let mut all = vec![codec::x01(), codec::x02(), json::x03(), json::x04(), abi::b01(), abi::b02(), sdk::k01(), sdk::k02(), sdk::k03(), ffi::f01(), e2e::e01(), e2e::k04(), cli::l01(), values::q01(), values::t01()];
    all.extend(state::all());
    all.extend(runtime::all());
    all.extend(gas::all());
    all
}
