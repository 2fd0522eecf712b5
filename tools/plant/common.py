DEMO_SH='''#!/bin/bash
# cwd: the repository.  Builds main.rs (beside this file) against it in a scratch directory and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat >"$tmp/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cycle_map = { path = "$repo", features = ["serde"] }
serde = "1.0"
serde_json = "1.0"
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$tmp/target"
cargo build --quiet --offline
timeout 120 "$tmp/target/debug/demo"
'''
PRE='''#![allow(dead_code, unused_imports)]
use ::cycle_map::{CycleMap, GroupMap, OptionalPair, PartialCycleMap};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A hasher under which everything collides: lawful, just slow.
#[derive(Clone, Default)]
struct Flat;
impl BuildHasher for Flat { type Hasher = FlatH; fn build_hasher(&self) -> FlatH { FlatH } }
struct FlatH;
impl Hasher for FlatH { fn finish(&self) -> u64 { 7 } fn write(&mut self, _: &[u8]) {} }

/// Equality and hash look at `k` only; `tag` tells equal instances apart.
#[derive(Clone, Debug)]
struct T { k: u32, tag: u32 }
fn t(k: u32, tag: u32) -> T { T { k, tag } }
impl PartialEq for T { fn eq(&self, o: &T) -> bool { self.k == o.k } }
impl Eq for T {}
impl Hash for T { fn hash<H: Hasher>(&self, h: &mut H) { self.k.hash(h) } }
'''
