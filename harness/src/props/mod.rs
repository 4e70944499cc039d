use crate::engine::Prop;
pub mod numbers;
pub mod polyview;
pub mod subst;
pub mod reduce;
pub mod value;
pub mod deriv;
pub mod arith;
pub mod laws;
pub mod canon;
pub mod simp;
pub mod trans;
pub mod frac;
pub mod notation;
pub mod storage;
pub mod queries;
pub mod display;
pub mod history;
pub mod builtins;

pub fn all() -> Vec<&'static Prop> {
    vec![&numbers::NUMBERS, &polyview::POLY, &subst::SUBST, &reduce::REDUCE, &value::EXPAND, &deriv::DERIV, &arith::ARITH, &laws::LAWS, &canon::CANON, &frac::FRAC, &frac::FACTOR, &trans::TRIG, &trans::EXP, &simp::SIMPLIFY, &display::DISPLAY, &queries::QUERIES, &storage::STORAGE, &notation::NOTATION, &history::HISTORY, &builtins::BUILTINS]
}
pub fn find(id: &str) -> &'static Prop {
    all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| panic!("no property {id}"))
}
