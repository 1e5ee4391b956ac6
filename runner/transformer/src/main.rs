//! Thin shim over the public API of the real crate: one request per line on stdin
//! (`<op> <hex of a JSON value>`), one answer per line on stdout (`<tag> <hex payload>`).
use amzn_smt_string_transformer::{
    callgraph::*, forest::*, mapping_tools::*, reconstruct_tools, string_fcts::*, string_mappings,
    subformula_parser, transpiler, transpiler::*,
};
use aws_smt_ir::ISymbol;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::{self, BufRead, Write};
use std::panic;

static LOC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn ch(v: &Value) -> char {
    v.as_str().unwrap().chars().next().unwrap()
}
fn st(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn ki(v: &Value) -> KeepInts {
    match v.as_str().unwrap() {
        "No" => KeepInts::No,
        "AsInts" => KeepInts::AsInts,
        "ExactInts" => KeepInts::ExactInts,
        _ => panic!("bad keep_ints"),
    }
}
fn ki_out(k: KeepInts) -> &'static str {
    match k {
        KeepInts::No => "No",
        KeepInts::AsInts => "AsInts",
        KeepInts::ExactInts => "ExactInts",
    }
}
/// null = Everything
fn props(v: &Value) -> StringSetProperties {
    if v.is_null() {
        return StringSetProperties::Everything;
    }
    StringSetProperties::Some {
        len: v["len"].as_bool().unwrap(),
        ranges: v["ranges"].as_array().unwrap().iter().map(|r| (ch(&r[0]), ch(&r[1]))).collect(),
        keep_ints: ki(&v["keep_ints"]),
        keep_substrings: v["keep_substrings"].as_bool().unwrap(),
        keep_prefix_suffix: v["keep_prefix_suffix"].as_bool().unwrap(),
    }
}
fn props_out(p: &StringSetProperties) -> Value {
    match p {
        StringSetProperties::Everything => Value::Null,
        StringSetProperties::Some { len, ranges, keep_ints, keep_substrings, keep_prefix_suffix } => {
            let mut r: Vec<_> = ranges.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            r.sort();
            json!({"len": len, "ranges": r, "keep_ints": ki_out(*keep_ints),
                   "keep_substrings": keep_substrings, "keep_prefix_suffix": keep_prefix_suffix})
        }
    }
}
fn fct(name: &str) -> Option<StringFct> {
    if name == "NO_OP" {
        return Some(StringFct::NO_OP);
    }
    STRING_FCTS.iter().find(|(n, _)| *n == name).map(|(_, f)| *f)
}
fn nodeset(n: &NodeSetData, cg: &CallGraph) -> Value {
    let mut vars: Vec<String> = n.vars.iter().map(|v| cg.get_sym_for_id(*v).map(|s| s.to_string()).unwrap_or(format!("#{}", v))).collect();
    vars.sort();
    let mut f: Vec<String> = n.string_fcts.iter().map(|x| format!("{:?}", x)).collect();
    f.sort();
    json!({"vars": vars, "fcts": f, "lits": n.string_lits})
}
fn charmap(v: &Value) -> CharMap {
    let mut m = CharMap::default();
    m.char_to_char = v["char_to_char"].as_bool().unwrap_or(false);
    if let Some(rs) = v["ranges"].as_array() {
        for r in rs {
            m.ranges.push(RangeParams::new(ch(&r[0]), ch(&r[1]), us(&r[2]) as u32));
        }
    }
    if let Some(o) = v["char_map"].as_object() {
        for (k, x) in o {
            m.char_map.insert(k.chars().next().unwrap(), ch(x));
        }
    }
    if let Some(o) = v["string_map"].as_object() {
        for (k, x) in o {
            m.string_map.insert(k.clone(), st(x));
        }
    }
    if let Some(o) = v["props"].as_object() {
        for (k, x) in o {
            m.string_lit_props.insert(k.clone(), props(x));
        }
    }
    m.non_range_offset = us(&v["offset"]) as u32;
    m.non_range_start = v["start"].as_u64().map(|x| x as u32).unwrap_or(m.non_range_offset);
    m
}
fn charmap_out(m: &CharMap) -> Value {
    let cm: HashMap<String, String> = m.char_map.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    json!({"char_map": cm, "string_map": m.string_map, "offset": m.non_range_offset,
           "ranges": m.ranges.iter().map(|r| json!([r.start_char.to_string(), r.end_char.to_string(), r.cur_offset])).collect::<Vec<_>>(),
           "props": m.string_lit_props.iter().map(|(k, v)| (k.clone(), props_out(v))).collect::<HashMap<_, _>>()})
}

fn run(op: &str, v: &Value) -> Result<Value, String> {
    Ok(match op {
        "convert" => {
            let smt = st(&v["smt"]);
            let problem = transpiler::parse(smt.as_bytes()).map_err(|e| format!("{}", e))?;
            let (out, m) = transpiler::transform_ast(problem, v["global"].as_bool().unwrap_or(false), v["c2c"].as_bool().unwrap());
            let flat = out.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("\n");
            let out = subformula_parser::reconstruct_orig_query_shape(out);
            let text = out.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("\n");
            let mj: Value = serde_json::from_str(&m.to_json_string().unwrap()).unwrap();
            json!({"out": text, "flat": flat, "map": mj})
        }
        "echo" => {
            let smt = st(&v["smt"]);
            let problem = transpiler::parse(smt.as_bytes()).map_err(|e| format!("{}", e))?;
            json!(problem.map(|o| o.to_string()).collect::<Vec<_>>().join("\n"))
        }
        "subformulas" => {
            let smt = st(&v["smt"]);
            let problem = transpiler::parse(smt.as_bytes()).map_err(|e| format!("{}", e))?;
            let t = subformula_parser::find_string_subforumlas(false, problem);
            let j = subformula_parser::SubFormulaJson::new(&t);
            let back: Value = serde_json::from_str(&j.to_json_string().unwrap()).unwrap();
            back
        }
        "reconstruct" => {
            let r = reconstruct_tools::reconstruct_and_add_assertions(st(&v["path"]), st(&v["ext"]));
            json!(format!("{:?}", r))
        }
        "restr" => {
            let m: HashMap<char, char> = v["map"].as_array().unwrap().iter().map(|p| (ch(&p[0]), ch(&p[1]))).collect();
            json!(reconstruct_tools::reconstruct_string(st(&v["s"]).chars().collect(), m))
        }
        "remap" => {
            // the reverse maps of a mapping read back from its own JSON text
            let m: Mapping = serde_json::from_value(v["map"].clone()).map_err(|e| format!("{}", e))?;
            let re: HashMap<String, String> = m.get_re_map().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            json!({"re": re, "unalpha": m.get_un_alpha_map(),
                   "again": serde_json::from_str::<Value>(&m.to_json_string().unwrap()).unwrap()})
        }
        "mapround" => {
            // through a file, and through the in-memory form of every per-string entry
            let m: Mapping = serde_json::from_value(v["map"].clone()).map_err(|e| format!("{}", e))?;
            let path = st(&v["path"]);
            m.print_json_to_file(&path).map_err(|e| format!("{}", e))?;
            let b = Mapping::build_from_json_file(&path).map_err(|e| format!("{}", e))?;
            let persist: HashMap<String, MappedStringMetaObj> =
                b.persistent_string_map.iter().map(|(k, p)| (k.clone(), p.to_meta_obj())).collect();
            let affected: HashSet<ISymbol> = b.affected_constraint_vars.iter().map(|x| ISymbol::from(x.as_str())).collect();
            let failed: Vec<ISymbol> = b.failed_transformed_constraint_vars.iter().map(|x| ISymbol::from(x.as_str())).collect();
            let alpha: HashMap<ISymbol, ISymbol> =
                b.alpha_renaming_map.iter().map(|(x, y)| (ISymbol::from(x.as_str()), ISymbol::from(y.as_str()))).collect();
            let sm: HashMap<String, String> = b.string_map.iter().cloned().collect();
            let c2c: HashSet<String> = b.char_to_char_string_lits.iter().cloned().collect();
            let rebuilt = Mapping::new(&b.char_map, &sm, &affected, &failed.iter().collect(), &alpha, &persist, &c2c);
            let re: HashMap<String, String> = b.get_re_map().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            json!({"again": serde_json::from_str::<Value>(&b.to_json_string().unwrap()).unwrap(),
                   "rebuilt": serde_json::from_str::<Value>(&rebuilt.to_json_string().unwrap()).unwrap(),
                   "re": re, "unalpha": b.get_un_alpha_map()})
        }
        "c2c" => {
            let mut m = charmap(&v["cm"]);
            let mut res = vec![];
            for s in v["strings"].as_array().unwrap() {
                res.push(match string_mappings::map_string_char_to_char(s.as_str().unwrap(), &mut m) {
                    Ok(r) => json!(r),
                    Err(e) => json!({"err": format!("{:?}", e)}),
                });
            }
            json!({"res": res, "cm": charmap_out(&m)})
        }
        "norec" => {
            let mut m = charmap(&v["cm"]);
            let mut res = vec![];
            for s in v["strings"].as_array().unwrap() {
                res.push(match string_mappings::map_string_no_reconstruct(s.as_str().unwrap(), &mut m) {
                    Ok(r) => json!(r),
                    Err(e) => json!({"err": format!("{:?}", e)}),
                });
            }
            json!({"res": res, "cm": charmap_out(&m)})
        }
        "keepsub" => {
            let mut m = charmap(&v["cm"]);
            let mut res = vec![];
            for s in v["strings"].as_array().unwrap() {
                res.push(match string_mappings::gen_string_keep_substrings(s.as_str().unwrap(), &mut m,
                    v["len"].as_bool().unwrap(), ki(&v["ki"]), v["keep_ranges"].as_bool().unwrap()) {
                    Ok(r) => json!(r),
                    Err(e) => json!({"err": format!("{:?}", e)}),
                });
            }
            json!({"res": res, "cm": charmap_out(&m)})
        }
        "merge" => json!(ki_out(KeepInts::merge(&ki(&v[0]), ki(&v[1])))),
        "union" => {
            let (mut a, b) = (props(&v[0]), props(&v[1]));
            let r = a.update_with_truths(b);
            json!({"r": props_out(&r), "a": props_out(&a)})
        }
        "propsjson" => {
            let p = props(v);
            let j = StringSetPropertiesJson::new(&p);
            let t = serde_json::to_string(&j).unwrap();
            let back: StringSetPropertiesJson = serde_json::from_str(&t).unwrap();
            props_out(&back.to_string_set_props())
        }
        "fct" => {
            let f = match fct(v["name"].as_str().unwrap()) {
                Some(f) => f,
                None => return Ok(Value::Null),
            };
            let lits: Vec<String> = v["lits"].as_array().unwrap().iter().map(st).collect();
            let a = f.get_args(&lits);
            json!({"ret": f.string_fct_return_type().to_string(),
                   "args": match &a {
                        StringFctArgs::NoArgs => Value::Null,
                        StringFctArgs::Contains(s) => json!({"contains": s}),
                        StringFctArgs::ReRange(x, y) => json!({"range": [x.to_string(), y.to_string()]})},
                   "pos": format!("{:?}", f.get_var_position_implies_char_substrings()),
                   "props": props_out(&f.get_required_props(a.clone()))})
        }
        "charmap" => {
            // state of the public CharMap queries
            let m = charmap(&v["cm"]);
            let c = ch(&v["c"]);
            let r = m.get_range_for_char(c).map(|r| (r.start_char.to_string(), r.end_char.to_string()));
            let b = m.get_backwards_range_for_char(c).map(|r| (r.start_char.to_string(), r.end_char.to_string()));
            json!({"range": r, "back": b, "has": m.has_range(c, ch(&v["d"]))})
        }
        "prune" => {
            let mut m = charmap(&v["cm"]);
            for (k, x) in v["persist"].as_object().unwrap() {
                m.persist_string_map.insert(k.clone(), MappedStringMetaObj {
                    req_props: StringSetProperties::new(), prefix: String::new(), suffix: String::new(),
                    mid_strings: x["mid"].as_array().unwrap().iter().map(st).collect(), mapped_to: st(&x["to"]) });
            }
            m.prune_persist_string_map();
            let mut k: Vec<_> = m.persist_string_map.keys().cloned().collect();
            k.sort();
            json!(k)
        }
        "litprops" => {
            // setup_string_lit_oriented_props over partitions given as {fcts:[[name,lits]], lits:[..], char_level:bool}
            let mut m = CharMap::default();
            let mut parts = vec![];
            let mut ids: Vec<NodeId> = vec![];
            for (i, p) in v.as_array().unwrap().iter().enumerate() {
                let mut n = NodeSetData::default();
                n.vars.insert(i);
                for f in p["fcts"].as_array().unwrap() {
                    let lits: Vec<String> = f[1].as_array().unwrap().iter().map(st).collect();
                    let sf = fct(f[0].as_str().unwrap()).unwrap();
                    n.string_fcts.insert((sf, sf.get_args(&lits)));
                }
                n.string_lits = p["lits"].as_array().unwrap().iter().map(st).collect();
                if p["char_level"].as_bool().unwrap() {
                    ids.push(i);
                }
                parts.push(n);
            }
            let set: HashSet<Option<&NodeId>> = ids.iter().map(Some).collect();
            m.setup_string_lit_oriented_props(&parts, &set);
            charmap_out(&m)
        }
        "graph" => {
            let mut g = CallGraph::default();
            let mut log = vec![];
            for o in v.as_array().unwrap() {
                let sy = |x: &Value| ISymbol::from(x.as_str().unwrap());
                match o[0].as_str().unwrap() {
                    "var" => { log.push(json!(g.add_constraint_var(sy(&o[1]), CallnodeData::new(StringFct::NO_OP, BTreeSet::new())))); }
                    "call" => {
                        let lits = o[3].as_array().unwrap().iter().map(st).collect();
                        log.push(json!(g.add_call(sy(&o[1]), CallnodeData::new(fct(o[2].as_str().unwrap()).unwrap(), lits))));
                    }
                    "pc" => log.push(json!(g.add_parent_child(&sy(&o[1]), &sy(&o[2])).is_ok())),
                    "sib" => log.push(json!(g.add_direct_siblings(
                        o[1].as_array().unwrap().iter().map(|x| sy(x)).collect(),
                        o[2].as_array().unwrap().iter().map(st).collect()).is_ok())),
                    "prop" => log.push(json!(match g.propagate_all() { Ok(()) => "ok".to_string(), Err(e) => format!("{:?}", e) })),
                    "data" => log.push(match g.get_data_for_var(&sy(&o[1])) {
                        Err(_) => Value::Null,
                        Ok(d) => json!({"fct": format!("{:?}", d.string_fct), "lits": d.string_lits_built_from,
                            "up": d.used_to_build.as_ref().map(|n| nodeset(n, &g)),
                            "down": d.built_from.as_ref().map(|n| nodeset(n, &g)),
                            "with": d.used_with.as_ref().map(|n| nodeset(n, &g))}),
                    }),
                    "cvars" => log.push(match g.get_constraint_vars_in_partition_with(&sy(&o[1])) {
                        Err(_) => Value::Null,
                        Ok(d) => { let mut d: Vec<_> = d.iter().map(|x| x.to_string()).collect(); d.sort(); json!(d) }
                    }),
                    "parts" => log.push(json!(g.partitions().iter().map(|p| nodeset(p, &g)).collect::<Vec<_>>())),
                    _ => panic!("bad graph op"),
                }
            }
            json!(log)
        }
        "forest" => {
            let mut f: Forest<usize, String> = Forest::new();
            let mut log = vec![];
            for o in v.as_array().unwrap() {
                let on = |x: &Value| x.as_u64().map(|y| y as usize);
                match o[0].as_str().unwrap() {
                    "new" => f.new_node(us(&o[1]), st(&o[2])),
                    "get" => log.push(json!(f.get_data_at_index(us(&o[1])))),
                    "set" => f.set_node_at_index(us(&o[1]), Node::new(st(&o[3]), us(&o[2]))),
                    "upd" => log.push(json!(f.update_node_at_index(us(&o[1]), NodeModStruct {
                        parent: on(&o[2]), child: on(&o[3]), data: o[4].as_str().map(|s| s.to_string()),
                        siblings: o[5].as_array().map(|a| a.iter().map(us).collect()) }).is_ok())),
                    "dump" => {
                        let mut d: Vec<_> = f.nodes().iter().map(|(k, n)| json!([k, n.ind(), n.data, n.parents(), n.children(), n.siblings()])).collect();
                        d.sort_by_key(|x| us(&x[0]));
                        log.push(json!(d));
                    }
                    _ => panic!("bad forest op"),
                }
            }
            json!(log)
        }
        _ => panic!("bad op"),
    })
}

fn main() {
    panic::set_hook(Box::new(|i| {
        *LOC.lock().unwrap() = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
    }));
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(|| {
        let stdin = io::stdin();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let (op, h) = line.split_once(' ').unwrap();
            let v: Value = serde_json::from_slice(&unhex(h)).unwrap();
            let r = panic::catch_unwind(|| run(op, &v));
            let mut o = io::stdout().lock();
            let (tag, body) = match r {
                Ok(Ok(b)) => ("OK".to_string(), b.to_string()),
                Ok(Err(e)) => ("ERR".to_string(), e),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    ("PANIC".to_string(), m + &LOC.lock().unwrap())
                }
            };
            writeln!(o, "@@ {} {}", tag, hex(&body)).unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
}
