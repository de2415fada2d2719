//! The functions that the simulated callers register. They are pure; `entered` is where the simulator
//! may preempt them, make them panic or stall, or make them call back into the library.

use jprt::cb::entered;
use serde_json::Value;
use serde_json_path::functions::*;

pub const NAMES: &[&str] = &[
    "vid", "first", "size", "is_str", "rest", "pair", "always", "neg", "lastv", "plus", "any_of", "both",
];

#[serde_json_path::function]
fn vid(v: ValueType) -> ValueType {
    entered(0);
    v
}

#[serde_json_path::function]
fn first(nodes: NodesType) -> ValueType {
    entered(1);
    match nodes.first() {
        Some(v) => ValueType::Node(v),
        None => ValueType::Nothing,
    }
}

#[serde_json_path::function]
fn size(nodes: NodesType) -> ValueType {
    entered(2);
    let mut n = 0u64;
    for _ in nodes {
        n += 1;
    }
    n.into()
}

#[serde_json_path::function]
fn is_str(v: ValueType) -> LogicalType {
    entered(3);
    v.as_value().is_some_and(Value::is_string).into()
}

#[serde_json_path::function]
fn rest(nodes: NodesType) -> NodesType {
    entered(4);
    nodes.all().into_iter().skip(1).collect::<Vec<_>>().into()
}

#[serde_json_path::function]
fn pair<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    entered(5);
    match (a.as_value(), b.as_value()) {
        (Some(a), Some(b)) => Value::Array(vec![a.clone(), b.clone()]).into(),
        _ => ValueType::Nothing,
    }
}

#[serde_json_path::function]
fn always() -> LogicalType {
    entered(6);
    true.into()
}

#[serde_json_path::function]
fn neg(l: LogicalType) -> LogicalType {
    entered(7);
    (!bool::from(l)).into()
}

#[serde_json_path::function(name = "lastv")]
fn last_value(nodes: NodesType) -> ValueType {
    entered(8);
    match nodes.last() {
        Some(v) => ValueType::Value(v.clone()),
        None => ValueType::Nothing,
    }
}

#[serde_json_path::function]
fn plus<'a>(a: ValueType<'a>, b: ValueType<'a>) -> ValueType<'a> {
    entered(9);
    match (a.as_value().and_then(Value::as_i64), b.as_value().and_then(Value::as_i64)) {
        (Some(a), Some(b)) => a.wrapping_add(b).into(),
        _ => ValueType::Nothing,
    }
}

#[serde_json_path::function]
fn any_of(nodes: NodesType, v: ValueType) -> LogicalType {
    entered(10);
    v.as_value().is_some_and(|v| nodes.iter().any(|n| *n == v)).into()
}

#[serde_json_path::function]
fn both(a: LogicalType, b: LogicalType) -> LogicalType {
    entered(11);
    (bool::from(a) && bool::from(b)).into()
}

pub fn touch() {}
