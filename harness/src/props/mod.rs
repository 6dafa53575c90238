use crate::runner::{p, AnyProp, P};

macro_rules! props {
    ($($t:ty),* $(,)?) => { vec![$({ static X: P<$t> = p(); &X as &dyn AnyProp }),*] };
}

pub mod codec;
pub mod cost;
pub mod form;
pub mod keep;
pub mod load;
pub mod net;
pub mod pure;
pub mod robust;
pub mod secret;
pub mod service;
pub mod url;
pub mod runtimes;
mod wait;

pub fn all() -> Vec<&'static dyn AnyProp> {
    props![
        url::C01,
        url::C02,
        url::C03,
        url::C04,
        url::C05,
        url::C06,
        url::C07,
        url::C08,
        form::C09,
        form::C10,
        form::C11,
        form::C12,
        url::C13,
        robust::C14,
        load::C15,
        service::C16,
        service::C17,
        service::C18,
        service::C19,
        pure::C20,
        secret::C21,
        codec::C22,
        net::C23,
        cost::C24,
        keep::C25,
        wait::C26,
        runtimes::C27,
    ]
}
