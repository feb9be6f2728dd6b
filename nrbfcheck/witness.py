"""Programs that have to compile, and programs that must not: what the signatures of the crate promise.

Each witness is type-checked on its own against the crate's current source. A program that must not compile counts only if
what rejects it is the borrow checker, and it has a twin that differs in the violating line and has to compile."""
import json
import os
import shutil
import subprocess

from . import build
from .rules import Report
from .walk import Finding

HEAD = '#![allow(dead_code, unused_variables, unused_imports, unused_assignments)]\nuse nrbf::{*, value::*};\n%s\nfn main() {}\n'

# lifetimes and thread safety; every other error means that the program does not fit the crate's interface any more
BORROW = {'E0597', 'E0505', 'E0506', 'E0515', 'E0716', 'E0521', 'E0502', 'E0499', 'E0621', 'E0310', 'E0309', 'E0491',
          'E0195', 'E0495', 'E0308', 'E0312', 'E0700', 'E0759', 'E0792'}
MARKER = {'E0277'}

GOOD = {
    'string_of_message': "fn f<'i>(m: &'i [u8]) -> Option<&'i str> {\n  match RemotingMessage::parse(m).ok()? { RemotingMessage::Value(Value::String(s)) => Some(s), _ => None }\n}",
    'string_by_reference': "fn f<'i>(v: &Value<'i>) -> Option<&'i str> { match v { Value::String(s) => Some(s), _ => None } }",
    'object_of_message': "fn f<'i>(m: &'i [u8]) -> Option<(&'i str, Option<&'i str>, Vec<&'i str>)> {\n  match RemotingMessage::parse(m).ok()? { RemotingMessage::Value(Value::Object(o)) => Some((o.class, o.library, o.members.keys().copied().collect())), _ => None }\n}",
    'object_by_reference': "fn f<'i>(o: &Object<'i>) -> (&'i str, Option<&'i str>, Vec<&'i str>) { (o.class, o.library, o.members.keys().copied().collect()) }",
    'member': "fn f<'i>(o: &Object<'i>, k: &str) -> Option<&'i str> { match o.members.get(k)? { Value::String(s) => Some(s), _ => None } }",
    'call': "fn f<'i>(m: &'i [u8]) -> Option<(&'i str, &'i str, Option<&'i str>, Option<Vec<Value<'i>>>)> {\n  match RemotingMessage::parse(m).ok()? { RemotingMessage::MethodCall(c) => Some((c.method_name, c.type_name, c.call_context, c.args)), _ => None }\n}",
    'call_by_reference': "fn f<'i>(c: &MethodCall<'i>) -> (&'i str, &'i str, Option<&'i str>) { (c.method_name, c.type_name, c.call_context) }",
    'return': "fn f<'i>(m: &'i [u8]) -> Option<(Option<Value<'i>>, Option<&'i str>, Option<Vec<Value<'i>>>)> {\n  match RemotingMessage::parse(m).ok()? { RemotingMessage::MethodReturn(c) => Some((c.return_value, c.call_context, c.args)), _ => None }\n}",
    'error': "fn f<'i>(m: &'i [u8]) -> Option<Error<'i>> { RemotingMessage::parse(m).err() }",
    'deserialized_string': "fn f<'i>(m: &'i [u8]) -> Option<&'i str> { from_slice::<&'i str>(m).ok() }",
    'deserialized_map': "fn f<'i>(m: &'i [u8]) -> Option<std::collections::HashMap<&'i str, &'i str>> { from_slice(m).ok() }",
    'deserialized_any': "fn f<'i, T: serde::Deserialize<'i>>(m: &'i [u8]) -> Option<T> { from_slice(m).ok() }",
    'deserialize_message': "fn f<'i>(m: RemotingMessage<'i>) -> Option<&'i str> { <&'i str as serde::Deserialize<'i>>::deserialize(m).ok() }",
    'error_of_deserialization': "fn f(m: Vec<u8>) -> Option<serde::de::value::Error> { from_slice::<String>(&m).err() }",
    'owned_of_deserialization': "fn f(m: Vec<u8>) -> Option<String> { from_slice::<String>(&m).ok() }",
    'threads': "fn f<T: Send + Sync>() {}\nfn g<'i>() { f::<RemotingMessage<'i>>(); f::<MethodCall<'i>>(); f::<MethodReturn<'i>>(); f::<Value<'i>>(); f::<Object<'i>>(); f::<Error<'i>>();\n  f::<DateTime>(); f::<DateTimeKind>(); f::<TimeSpan>(); f::<Decimal>(); f::<serde::de::value::Error>(); }",
    'thread': "fn f(m: &[u8]) -> Option<usize> {\n  let r = RemotingMessage::parse(m);\n  std::thread::scope(|s| { s.spawn(|| format!(\"{:?}\", &r).len()).join().ok() })\n}",
    'moved_to_thread': "fn f(m: &'static [u8]) { let r = RemotingMessage::parse(m); std::thread::spawn(move || drop(r)); }",
}

# name -> (good line, bad line): the good line has to compile in its place, the bad one must not
PAIRS = {}


def pair(name, text, good, bad):
    PAIRS[name] = (text % good, text % bad)


pair('message_outlives', "fn f<'i>(m: &'i [u8]) -> Option<RemotingMessage<'%s>> { RemotingMessage::parse(m).ok() }", 'i', 'static')
pair('error_outlives', "fn f<'i>(m: &'i [u8]) -> Option<Error<'%s>> { RemotingMessage::parse(m).err() }", 'i', 'static')
pair('text_outlives', "fn f<'i>(m: &'i [u8]) -> Option<&'%s str> { from_slice(m).ok() }", 'i', 'static')
for _n, _t, _e in (('value_string', "&Value<'i>", "match x { Value::String(s) => s, _ => \"\" }"), ('class', "&Object<'i>", 'x.class'),
                   ('library', "&Object<'i>", 'x.library.unwrap_or("")'),
                   ('member_name', "&Object<'i>", 'x.members.keys().next().copied().unwrap_or("")'),
                   ('method_name', "&MethodCall<'i>", 'x.method_name'), ('type_name', "&MethodCall<'i>", 'x.type_name'),
                   ('call_context', "&MethodCall<'i>", 'x.call_context.unwrap_or("")'),
                   ('return_context', "&MethodReturn<'i>", 'x.call_context.unwrap_or("")')):
    pair(_n + '_outlives', "fn f<'i>(x: %s) -> &'%%s str { %s }" % (_t, _e), 'i', 'static')
for _n, _t in (('message', 'RemotingMessage'), ('call', 'MethodCall'), ('return', 'MethodReturn'), ('value', 'Value'),
               ('object', 'Object'), ('error', 'Error')):
    pair(_n + '_is_not_longer', "fn f<'a, 'i>(x: %s<'a>, _: &'i ()) -> %s<'%%s> { x }" % (_t, _t), 'a', 'i')
for _n, _e in (('message', 'RemotingMessage::parse(&m)'), ('deserialized', 'from_slice::<&str>(&m)')):
    pair(_n + '_and_dropped_input', 'fn f(m: Vec<u8>) {\n  let r = %s;\n  %%s\n}' % _e, 'drop(r); drop(m);', 'drop(m); drop(r);')
    pair(_n + '_and_changed_input', 'fn f(mut m: Vec<u8>) {\n  let r = %s;\n  %%s\n}' % _e, 'drop(r); m[0] = 1;', 'm[0] = 1; drop(r);')
    pair(_n + '_of_inner_input', 'fn f() {\n  let k = vec![0u8; 4];\n  let r;\n  {\n    let i = vec![0u8; 4];\n    let m = %s;\n    r = %s;\n  }\n  drop(r);\n}'
         % ('%s', _e.replace('&m', 'm')), '&k[..]', '&i[..]')

TEXT = {'string_of_message': 'a string of a message', }


def check(files):
    """{name: [(code, message)]} of the programs that do not compile."""
    d = os.path.join(build.BUILD, 'witness')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'src/bin'))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'
                'nrbf = { path = "%s", features = ["serde"] }\nserde = "1"\n\n[workspace]\n' % build.REPO)
    lock = os.path.join(build.REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    for n, t in files.items():
        with open(os.path.join(d, 'src/bin', n + '.rs'), 'w') as f:
            f.write(HEAD % t)
    e = build.base_env()
    e['CARGO_TARGET_DIR'] = os.path.join(build.BUILD, 'witness-target')
    with build.lock():
        r = subprocess.run(['cargo', '+nightly', 'check', '--bins', '--offline', '--keep-going', '--message-format=json'], cwd=d,
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errors, done = {}, set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        t = (m.get('target') or {}).get('name')
        if m.get('reason') == 'compiler-artifact' and t in files:
            done.add(t)
        if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            if t not in files and 'aborting' not in m['message']['message']:
                raise build.BuildError('the crate does not compile for the witnesses: %s' % m['message']['rendered'][:1500])
            if t in files and m['message'].get('spans'):
                errors.setdefault(t, []).append(((m['message'].get('code') or {}).get('code'), m['message']['message'],
                                                 m['message'].get('rendered') or ''))
    lost = set(files) - done - set(errors)
    if lost:
        raise build.BuildError('no answer for %s:\n%s' % (sorted(lost)[:5], r.stderr[-1500:]))
    return errors


def is_borrow(e):
    return e[0] in BORROW or (e[0] is None and 'lifetime' in e[1])


def witness_unit():
    rep = Report('witness')
    files = dict(GOOD)
    for n, (g, b) in PAIRS.items():
        files['good_' + n], files['bad_' + n] = g, b
    errors = check(files)

    def find(what, detail):
        rep.findings.append(Finding({'C29'}, what, 'nrbf', 'public interface', detail))

    for n in sorted(files):
        es = errors.get(n)
        if n.startswith('bad_'):
            if 'good_' + n[4:] in errors:
                continue
            if not es:
                find('a program compiles that must not: %s' % n[4:], files[n])
            elif not all(is_borrow(e) for e in es):
                rep.undecided.append('%s is rejected for another reason: %s' % (n, es[0][1]))
        elif es:
            if all(is_borrow(e) and e[0] != 'E0308' or (e[0] in MARKER and ('Send' in e[1] or 'Sync' in e[1] or 'thread' in e[1]))
                   or (e[0] == 'E0308' and 'lifetime' in e[1] + e[2]) for e in es):
                find('a program does not compile that has to: %s' % n, '%s\n%s' % (files[n], es[0][2]))
            else:
                rep.undecided.append('%s does not fit the interface: %s' % (n, es[0][1]))
    rep.stats = {'programs': len(files), 'rejected': len([n for n in files if n in errors]), 'obligations': len(files)}
    return rep
