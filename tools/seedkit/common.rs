#![allow(dead_code, unused_imports)]
use nrbf::{MethodCall, MethodReturn, RemotingMessage, Value, value::Object};
use std::collections::HashMap;

/// Joins the parts of a message.
fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
fn i32s(n: i32) -> Vec<u8> { n.to_le_bytes().to_vec() }
/// A serialization header for the given root ID.
fn header(root: i32) -> Vec<u8> { cat(&[&[0], &i32s(root), &i32s(-1), &i32s(1), &i32s(0)]) }
/// A length-prefixed string (of less than 128 bytes).
fn lps(s: &str) -> Vec<u8> { cat(&[&[s.len() as u8], s.as_bytes()]) }
/// A BinaryObjectString record.
fn string(id: i32, s: &str) -> Vec<u8> { cat(&[&[6], &i32s(id), &lps(s)]) }
fn reference(id: i32) -> Vec<u8> { cat(&[&[9], &i32s(id)]) }
fn library(id: i32, name: &str) -> Vec<u8> { cat(&[&[12], &i32s(id), &lps(name)]) }
/// An ArraySingleObject record (without its elements).
fn object_array(id: i32, len: i32) -> Vec<u8> { cat(&[&[16], &i32s(id), &i32s(len)]) }
/// A MemberPrimitiveTyped record with an Int32.
fn int(n: i32) -> Vec<u8> { cat(&[&[8, 8], &i32s(n)]) }
/// ClassInfo.
fn class_info(id: i32, name: &str, members: &[&str]) -> Vec<u8> {
  let mut r = cat(&[&i32s(id), &lps(name), &i32s(members.len() as i32)]);
  for m in members { r.extend(lps(m)) }
  r
}
const END: &[u8] = &[11];
/// A whole message.
fn msg(root: i32, parts: &[&[u8]]) -> Vec<u8> { cat(&[&header(root), &parts.concat(), END]) }
fn ok(root: i32, parts: &[&[u8]]) -> Value<'static> {
  let m: &'static [u8] = Box::leak(msg(root, parts).into_boxed_slice());
  match RemotingMessage::parse(m) { Ok(RemotingMessage::Value(v)) => v, r => panic!("no value: {r:?}") }
}
fn rejected(root: i32, parts: &[&[u8]]) {
  let m = msg(root, parts);
  let r = RemotingMessage::parse(&m);
  assert!(r.is_err(), "accepted: {r:?}");
}
fn object(class: &'static str, library: Option<&'static str>, members: &[(&'static str, Value<'static>)]) -> Value<'static> {
  Value::Object(Object { class, library, members: members.iter().cloned().collect() })
}
